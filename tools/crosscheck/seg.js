// Boundaries that ICU (through Intl.Segmenter) places around every code point
// in a number of contexts. usage: node seg.js OUTDIR
const fs = require('fs'), out = process.argv[2];
const T = {
 grapheme: [['a','a'],['a','\u0300'],['\u0915\u094D','a'],['\u0915\u094D',''],['\u0915','\u0915'],['\u0915','\u094D\u0915'],['\u1100',''],['\uAC00',''],['\uAC01',''],['','\u1161'],['','\u11A8'],['','\uAC00'],['\u{1F469}\u200D','a'],['','\u200D\u{1F469}'],['\u{1F469}','\u200D\u{1F469}'],['\u{1F1E6}','\u{1F1E6}'],['\u0600','\u0600'],['\r','\n']],
 word: [['a','a'],['a',''],['','a'],['1','1'],['','1'],['1',''],['a','1'],['1','a'],['_','_'],['','_'],['\u05D0','\u05D0'],['\u05D0"','' ],['','"\u05D0'],['',"'a"],["a'",''],['a.',''],['1,',''],['',',1'],['','.1'],['\u{1F469}\u200D',''],[' ',' '],['\u{1F1E6}','\u{1F1E6}'],['\r','\n'],['\u30AB','\u30AB'],['a','\u0301a']],
 sentence: [['a. ','a'],['a.','a'],['a.',' a'],['a. ',' A'],['A? ',' a'],['A?','A'],['A?',' A'],['A? ',' A'],['','.A'],['','. A'],['a','A'],['a. ',', A'],['1.','1'],['a.)','A'],['\r','\n'],['A','. A'],['. 1','a'],['a.\u0300 ','a']],
};
const loc = 'und';
for (const g of Object.keys(T)) {
  const seg = new Intl.Segmenter(loc, {granularity: g});
  T[g].forEach(([p, q], k) => {
    const b = new Uint16Array(0x110000);
    for (let c = 0; c < 0x110000; c++) {
      if (c >= 0xD800 && c < 0xE000) continue;
      let m = 0;
      for (const s of seg.segment(p + String.fromCodePoint(c) + q)) m |= 1 << s.index;
      b[c] = m;
    }
    fs.writeFileSync(`${out}/${g}.${k}.bin`, Buffer.from(b.buffer));
    fs.writeFileSync(`${out}/${g}.${k}.txt`, JSON.stringify([p, q]));
  });
}
