// Line-driven access to falcon.js: one JSON request per line, one JSON answer per line.
const readline = require('readline');
const Module = require(process.argv[2]);
const PAD = 64;

Module().then((f) => {
  const hex = (p, n) => Buffer.from(f.HEAPU8.slice(p, p + n)).toString('hex');
  function box(n, data, fill) {
    const p = f._malloc(n + 2 * PAD);
    f.HEAPU8.fill(0xA5, p, p + n + 2 * PAD);
    const q = p + PAD;
    if (data) f.HEAPU8.set(data, q);
    else f.HEAPU8.fill(fill, q, q + n);
    return { p, q, n };
  }
  function intact(b) {
    for (let i = 0; i < PAD; i++) if (f.HEAPU8[b.p + i] !== 0xA5 || f.HEAPU8[b.q + b.n + i] !== 0xA5) return false;
    return true;
  }
  const num = (q) => Number(new DataView(f.HEAPU8.buffer).getBigUint64(q, true));
  const same = (b, d) => Buffer.from(f.HEAPU8.slice(b.q, b.q + b.n)).equals(d);
  function run(r) {
    const bs = [];
    const mk = (...a) => { const b = box(...a); bs.push(b); return b; };
    const out = {};
    const ins = [];
    const put = (h) => { const d = Buffer.from(h, 'hex'); const b = mk(d.length, d); ins.push([b, d]); return b; };
    if (r.op === 'keypair' || r.op === 'seedpair') {
      const pk = mk(1025, null, 0x5A), sk = mk(1281, null, 0x5A);
      if (r.op === 'keypair') out.rc = f._zknox_crypto_sign_keypair(pk.q, sk.q);
      else { const s = put(r.seed); out.rc = f._zknox_crypto_sign_keypair_from_seed(pk.q, sk.q, s.q, s.n); }
      out.pk = hex(pk.q, 1025); out.sk = hex(sk.q, 1281);
    } else if (r.op === 'sign') {
      const m = put(r.msg), sk = put(r.sk);
      const sm = mk(42 + m.n + 1025, null, 0x5A), ln = mk(8, null, 0x5A);
      out.rc = f._zknox_crypto_sign(sm.q, ln.q, m.q, BigInt(m.n), sk.q);
      out.len = num(ln.q);
      if (out.rc === 0 && out.len <= sm.n) out.sm = hex(sm.q, out.len);
    } else if (r.op === 'open') {
      const s = put(r.sm), pk = put(r.pk);
      const m = mk(s.n, null, 0x5A), ln = mk(8, null, 0x5A);
      out.rc = f._zknox_crypto_sign_open(m.q, ln.q, s.q, BigInt(s.n), pk.q);
      out.len = num(ln.q);
      if (out.rc === 0 && out.len <= m.n) out.m = hex(m.q, out.len);
      out.clean = f.HEAPU8.slice(m.q, m.q + m.n).every((v) => v === 0x5A);
    }
    out.intact = bs.every(intact);
    out.inputs = ins.every(([b, d]) => same(b, d));
    for (const b of bs) f._free(b.p);
    return out;
  }
  const rl = readline.createInterface({ input: process.stdin });
  rl.on('line', (line) => {
    let a;
    try { a = run(JSON.parse(line)); } catch (e) { a = { error: String(e).slice(0, 300) }; }
    process.stdout.write(JSON.stringify(a) + '\n');
  });
  rl.on('close', () => process.exit(0));
}).catch((e) => { process.stdout.write(JSON.stringify({ error: String(e) }) + '\n'); process.exit(3); });
