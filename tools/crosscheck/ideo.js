// BleveIdeographic against the Script property of this Node's Unicode.
// usage: node ideo.js CONTRACTS
const fs = require('fs');
const t = new Set();
for (const l of fs.readFileSync(process.argv[2] + '/tables/words.txt', 'utf8').split('\n')) {
  const f = l.split(' ');
  if (f.length === 3 && f[2].split(',').includes('BleveIdeographic')) for (let c = parseInt(f[0], 16); c <= parseInt(f[1], 16); c++) t.add(c);
}
const re = /[\p{Script=Han}\p{Script=Hiragana}\p{Script=Katakana}]/u;
let d = 0;
for (let c = 0; c < 0x110000; c++) if (!(c >= 0xD800 && c < 0xE000) && re.test(String.fromCodePoint(c)) !== t.has(c)) { d++; console.log(c.toString(16)); }
console.log('unicode', process.versions.unicode, 'code points', t.size, 'differences', d);
