'use strict';
// known-findings.txt: "finding: property=P id=ID trace=PATH class={...} what" and "fixed: property=P commit what"
const fs = require('fs'), path = require('path');
function findings(root) {
  const out = []; let t = ''; try { t = fs.readFileSync(path.join(root, 'known-findings.txt'), 'utf8'); } catch (e) { return out; }
  for (const l of t.split('\n')) { const m = /^finding: property=(\S+) id=(\S+) trace=(\S+) class=\{(.*?)\} (.*)$/.exec(l); if (m) out.push({ property: m[1], id: m[2], trace: m[3], cls: m[4], what: m[5] }); }
  return out;
}
module.exports = { findings };
