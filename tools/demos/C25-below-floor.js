// The handle takes a device that is near to the floor below it.
// The handle is moved down by more than half of the device's height and less than all of it at once.
const { load, thing } = require("./page_lib.js");
(async () => {
  const p = await load([thing("00:01", 50, 10, 50)]);
  await p.press(0);
  await p.release();
  await p.grip();
  await p.move(0, 0, 8);
  await p.release();
  const last = p.posts[p.posts.length - 1];
  if (last[1].y !== 0) { console.log("sent: " + JSON.stringify(last)); process.exit(1); }
})().catch((e) => { console.error(e); process.exit(1); });
