// A module of which every member is an inert function of which every member is an inert function ...
const any = new Proxy(function () {}, {
  get: (_, k) => (k === Symbol.toPrimitive ? () => "" : k === Symbol.iterator ? function* () {} : k === "then" || k === "__esModule" || k === "prototype" ? undefined : any),
  apply: () => any, construct: () => any, getPrototypeOf: () => Function.prototype, has: () => true
});
module.exports = Object.create(any);
