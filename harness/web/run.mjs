// Bundles the frontend with the stand-ins, then runs the page of each case in a context of its own.
import { createRequire } from "module";
import fs from "fs";
import path from "path";
import vm from "vm";
import readline from "readline";
const here = path.dirname(new URL(import.meta.url).pathname);
const [, , frontend, out, mode] = process.argv;
if (mode === "build") {
  const esbuild = createRequire("/opt/veriftools/node/node_modules/")("esbuild");
  const lodash = ["/opt/veriftools/quint/node_modules/lodash/lodash.js", "/opt/veriftools/node/node_modules/lodash/lodash.js"].find(f => fs.existsSync(f));
  const map = { react: "react.mjs", "react-dom": "react.mjs", "react-dom/client": "react.mjs", "react/jsx-runtime": "react.mjs", "react/jsx-dev-runtime": "react.mjs", "@codemirror/state": "cm.cjs", "@codemirror/view": "cm.cjs", classnames: "small.mjs", "@floating-ui/react-dom": "floating.mjs", "@aquascope/leader-line": "leader.mjs" };
  const pk = p => path.join(frontend, "packages", p);
  const index = fs.readFileSync(pk("aquascope-standalone/index.html"), "utf8").replace(/^[^]*<body[^>]*>|<\/body>[^]*$|<script[^]*?<\/script>/g, "");
  for (const [main, name, html] of [["aquascope-embed/src/main.tsx", "page.js", ""], ["aquascope-standalone/src/index.tsx", "standalone.js", index]])
    await esbuild.build({
      stdin: { contents: `import ${JSON.stringify(path.join(here, "entry.mjs"))};\nimport ${JSON.stringify(pk(main))};\nglobalThis.__html = ${JSON.stringify(html)};`, resolveDir: here },
      bundle: true, outfile: path.join(out, name), format: "iife", platform: "browser", target: "es2022", jsx: "transform", logLevel: "error", keepNames: false, legalComments: "none",
      loader: { ".scss": "empty", ".css": "empty", ".svg": "empty", ".png": "empty" },
      tsconfigRaw: fs.readFileSync(path.join(frontend, "tsconfig.json"), "utf8"),
      define: { SERVER_URL: '"http://127.0.0.1:8008"', "process.env.NODE_ENV": '"production"' },
      plugins: [{ name: "stand-ins", setup(b) {
        b.onResolve({ filter: /.*/ }, a => {
          if (a.kind === "entry-point") return;
          if (map[a.path]) return { path: path.join(here, map[a.path]) };
          if (a.path === "lodash") return { path: lodash };
          if (/^lodash(-es)?\//.test(a.path)) return { path: path.join(path.dirname(lodash), a.path.replace(/^lodash(-es)?\//, "").replace(/(\.js)?$/, ".js")) };
          if (a.path === "lodash-es") return { path: lodash };
          if (a.path === "@aquascope/editor") return { path: pk("aquascope-editor/src/lib.tsx") };
          if (/\/bindings\//.test(a.path)) return { path: path.join(here, "any.cjs") };
          if (/^[@a-z]/.test(a.path)) return { path: path.join(here, "any.cjs") };
          const m = /^(\..*)\.js$/.exec(a.path);
          if (m && !fs.existsSync(path.resolve(a.resolveDir, a.path))) for (const e of [".ts", ".tsx"]) { const f = path.resolve(a.resolveDir, m[1] + e); if (fs.existsSync(f)) return { path: f }; }
        });
      } }]
    });
} else {
  let ctx;
  process.on("unhandledRejection", e => ctx?.__errors?.push("unhandled: " + String(e?.stack ?? e)));
  const script = new vm.Script(fs.readFileSync(out, "utf8"), { filename: "page.js" });
  for await (const line of readline.createInterface({ input: process.stdin, terminal: false })) {
    let res;
    try {
      ctx = vm.createContext({ URL, structuredClone, TextEncoder, TextDecoder, URLSearchParams, Headers, AbortController });
      script.runInContext(ctx, { timeout: 5000 });
      let t;
      res = await Promise.race([ctx.__case(line), new Promise((_, no) => { t = setTimeout(() => no(new Error("timeout")), 20000); })]);
      clearTimeout(t);
    } catch (e) { res = JSON.stringify({ crash: String(e?.stack ?? e) }); }
    process.stdout.write(res + "\n");
  }
}
