// The neighbours that have gone are only forgotten for the device whose panel is open: the others keep them.
// A neighbour is removed while another device, or none, is selected; the device it was near to is selected later.
const { load, thing } = require("./page_lib.js");
(async () => {
  const p = await load([thing("00:01"), thing("00:02", 100)]);
  await p.tell("neighbor-updated", { source_category: "Uci", source_mac_address: "00:01", destination_category: "Anchor", destination_mac_address: "00:02", distance: 100, azimuth: 0, elevation: 0 });
  await p.tell("device-removed", { category: "Anchor", mac_address: "00:02" });
  await p.press(0);
  await p.release();
  if (!p.panel().includes("00:01") || p.panel().includes("00:02")) { console.log("the panel: " + p.panel()); process.exit(1); }
})().catch((e) => { console.error(e); process.exit(1); });
