export const useFloating = () => ({ x: 0, y: 0, strategy: "absolute", refs: { setReference() {}, setFloating() {} }, reference() {}, floating() {} });
