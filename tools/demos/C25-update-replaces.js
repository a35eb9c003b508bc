// An update makes a new thing of the device and of its neighbours nothing is left: the panel keeps the old one.
// A device that is selected is moved by somebody else.
const { load, thing } = require("./page_lib.js");
(async () => {
  const p = await load([thing("00:01", 50, 0, 50), thing("00:02", 5, 0, 5)]);
  await p.press(0);
  await p.release();
  await p.tell("device-updated", { ...thing("00:02", 1, 2, 3) });
  await p.tell("device-updated", { ...thing("00:01", 71, 72, 73) });
  if (!/71/.test(p.panel()) || !/73/.test(p.panel())) { console.log("the panel: " + p.panel()); process.exit(1); }
})().catch((e) => { console.error(e); process.exit(1); });
