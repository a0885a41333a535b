/*
 * Explorer of the JavaScript binding (C26): the protocol of mc.h, the choices being made in JavaScript.
 *
 * The binding of the working tree runs on a wasm32 build of the library (host.mjs).  Every execution takes a fresh
 * instance; what the binding returns is compared with what the library does when it is called directly in an instance
 * of its own, and all memory must have been released, whether the call succeeded, failed or ran out of memory.
 */
import fs from 'node:fs';
import { Instance, host } from './libresdet.mjs';
import * as B from './resdet.mjs';

const opt = {}; for(let i = 2; i+1 < process.argv.length; i += 2) opt[process.argv[i]] = process.argv[i+1];
const THOROUGH = opt['--tier'] === 'thorough', SHARD = +opt['--shard'], NSHARDS = +opt['--nshards'], MODE = opt['--mode'], BUDGET = +opt['--budget'];
const MAXCH = 4096;

/* ---- explorer ---- */
class Skip { } class Violation { constructor(sig, msg) { this.sig = sig; this.msg = msg; } }
const known = new Map(fs.readFileSync(opt['--known'],'utf8').split('\n').filter(x => x).map(x => [x,0]));
const fd = fs.openSync(opt['--status'],'w+'), st = Buffer.alloc(4+4*MAXCH+4+8+256); fs.writeSync(fd,st,0,st.length,0);
const lines = [];
let choices = [], arity = [], prefix = [], replay = null;
if('--replay' in opt) prefix = replay = opt['--replay'].split(',').filter(x => x).map(Number);
let execs = 0, nontriv = 0, capped = 0, samples = 0;
const outcomes = new Set(), states = new Set();
function choose(n) {
	const i = choices.length, v = i < prefix.length ? prefix[i] : 0;
	if(v >= n) { console.error('mc: divergence while replaying a prefix'); process.exit(71); }
	choices.push(v); arity.push(n); return v;
}
const pick = a => a[choose(a.length)], Q = (q, t) => THOROUGH ? t : q;
function mine() {
	/* what is running, in case it never ends */
	st.writeUInt32LE(choices.length,0); choices.forEach((c, i) => st.writeUInt32LE(c,4+4*i)); fs.writeSync(fd,st,0,4+4*choices.length,0);
	if(replay || NSHARDS <= 1) return;
	let h = 2166136261; for(const c of choices) { h = Math.imul(h ^ (c+1),16777619) + 12345 | 0; h ^= h >>> 15; }
	h = Math.imul(h ^ h >>> 13,0x85ebca6b); h ^= h >>> 16;
	if((h >>> 0) % NSHARDS !== SHARD) throw new Skip;
}
const trace = (...a) => { if(replay) console.log(...a); };
function hash(x) { let h = 1469598103934665603n; const s = typeof x === 'string' ? x : show(x); for(let i = 0; i < s.length; i++) h = BigInt.asUintN(64,(h ^ BigInt(s.charCodeAt(i))) * 1099511628211n); return h; }
const show = x => JSON.stringify(x,(k, v) => typeof v === 'number' && !Number.isFinite(v) ? String(v) : v === undefined ? 'undefined' : v);
function fail(sig, msg) { throw new Violation(sig,msg); }
function check(c, sig, msg) { if(!c) fail(sig,typeof msg === 'function' ? msg() : msg); }
function finish(code) {
	for(const [k,v] of known) if(v) lines.push(JSON.stringify({known: k, hits: v}));
	lines.push(JSON.stringify({execs, trans: host.calls, nontriv, capped, extra: [ooms,collected,0,0,0,0,0,0]}));
	fs.writeFileSync(opt['--out'],lines.join('\n') + '\n');
	for(const [name,set] of [['states',states],['outcomes',outcomes]]) { const b = new BigUint64Array([...set]); fs.writeFileSync(opt['--out'] + '.' + name,Buffer.from(b.buffer)); }
	process.exit(code);
}
function sample(s) { if(samples < 3 && execs % 41 === 0) { samples++; lines.push(JSON.stringify({sample: s})); } }
let ooms = 0, collected = 0;

/* ---- the library, called directly ---- */
const str = (inst, s) => { const b = new TextEncoder().encode(s), p = inst.malloc(b.length+1); inst.fresh().u8.set(b,p); inst.u8[p+b.length] = 0; return p; };
const method = (inst, name) => { if(name === null) return 0; const s = str(inst,name), m = inst.call('resdet_get_method',[s]); inst.free(s); return m; };
/* is v what the library can be given as an integer of so many bits? */
const whole = (v, bits) => Number.isInteger(v) && v >= 0 && v < 2**bits;
function refParams(inst, p) {
	const keys = Object.keys(p);
	if(!keys.length) return {e: 0, p: 0};
	if(keys.some(k => !['range','threshold','compression_filter'].includes(k))) return {e: -1, p: 0};
	if('range' in p && !whole(p.range,32) || 'compression_filter' in p && !whole(p.compression_filter,8)) return {e: -1, p: 0};
	const q = inst.call('resdet_alloc_default_parameters',[]); let e = 0;
	if('range' in p) e ||= inst.call('resdet_parameters_set_range',[q,p.range]);
	if('threshold' in p) e ||= inst.call('resdet_parameters_set_threshold',[q,p.threshold]);
	if('compression_filter' in p) e ||= inst.call('resdet_parameters_set_compression_filter',[q,p.compression_filter]);
	return {e, p: q};
}
function image(inst, data) { const b = inst.malloc(data.length*4); inst.fresh().f32.set(data,b/4); return b; }
function list(inst, p, n) { inst.fresh(); const l = []; for(let i = 0; i < n; i++) l.push([inst.u32[(p>>>2)+i*2],inst.f32[(p>>>2)+i*2+1]]); return l; }
function lists(inst, call) {
	const o = [0,0,0,0].map(() => inst.malloc(4)); const e = call(o);
	inst.fresh();
	if(e) return {e};
	return {e: 0, widths: list(inst,inst.u32[o[0]>>>2],inst.u32[o[1]>>>2]), heights: list(inst,inst.u32[o[2]>>>2],inst.u32[o[3]>>>2])};
}
function refDetect(data, n, w, h, m, p) {
	const inst = new Instance(false,true); if(![n,w,h].every(v => whole(v,32))) return {e: -1};
	const q = refParams(inst,p); if(q.e) return q;
	if(data.length < n*w*h) return {e: -1};
	const b = image(inst,data);
	return lists(inst,o => inst.call('resdetect',[b,n,w,h,...o,method(inst,m),q.p]));
}
class Ref {
	constructor(w, h, m, p) {
		const inst = this.inst = new Instance(false,true); this.e = 0; this.size = w*h;
		if(![w,h].every(v => whole(v,32))) { this.e = -1; return; }
		const q = refParams(inst,p); if(q.e) { this.e = q.e; return; }
		const e = inst.malloc(4); this.a = inst.call('resdet_create_analysis',[method(inst,m),w,h,q.p,e]); this.e = inst.fresh().i32[e>>>2];
	}
	analyze(data) { if(data.length < this.size) return -1; return this.inst.call('resdet_analyze_image',[this.a,image(this.inst,data)]); }
	results() { return lists(this.inst,o => this.inst.call('resdet_analysis_results',[this.a,...o])); }
}
const strings = new Map(), errstr = e => { if(!strings.has(e)) { const i = new Instance(false,true); strings.set(e,i.str(i.call('resdet_error_str',[e]))); } return strings.get(e); };

/* ---- judging the binding ---- */
const same = (l, r) => l.length === r.length && l.every((x, i) => x.index === r[i][0] && Object.is(x.confidence,r[i][1]));
let inst, what;
function begin(w, growing) { what = w; inst = new Instance(growing); host.violations.length = 0; host.use(inst); }
function clean(expect = 0) {
	const n = inst.live();
	check(!host.violations.length,'memory',() => `${what}: ${host.violations[0]}`);
	check(n === expect,'leak',() => `${what}: ${n} blocks of memory are allocated afterwards instead of ${expect}`);
}
/* the outcome of a call of the binding: {e, widths, heights} */
function attempt(f) {
	try { return {e: 0, r: f()}; }
	catch(x) {
		if(x instanceof Skip || x instanceof Violation) throw x;
		return {e: x instanceof B.RDError ? x.rderror : -2, x};
	}
}
/* e: an error of the library; -1: something that must be refused, however */
function judge(got, want, name) {
	if(want.e) {
		check(got.e,'accepted',() => `${what}: ${name} succeeds, although ${want.e < 0 ? 'it cannot be done as asked' : 'the library says "' + errstr(want.e) + '"'}`);
		check(got.x instanceof Error && got.x.message,'error',() => `${what}: ${name} throws ${got.x}, which is no error with a message`);
		if(want.e > 0) {
			check(got.e === want.e,'error',() => `${what}: ${name} fails with ${got.e} (${got.x.message}) instead of ${want.e}, "${errstr(want.e)}"`);
			check(got.x.message.includes(errstr(want.e)),'error',() => `${what}: ${name} says "${got.x.message}" instead of "${errstr(want.e)}"`);
		}
	}
	else check(!got.e,'refused',() => `${what}: ${name} fails with ${got.x?.stack?.split('\n').slice(0,3).join(' ')}`);
}
function judgeLists(got, want, name) {
	judge(got,want,name);
	if(want.e) return;
	for(const k of ['widths','heights']) check(same(got.r[k],want[k]),'results',() => `${what}: ${name} gives ${k} ${show(got.r[k].map(x => [x.index,x.confidence]))} instead of ${show(want[k])}`);
	if(want.widths.length > 1 || want.heights.length > 1) nontriv++;
}
const tick = () => new Promise(r => setTimeout(r,0));
/* everything unreachable is collected, and what it held released */
async function collect(done) {
	let control = false; const reg = new FinalizationRegistry(() => { control = true; });
	(() => { reg.register({x: [1,2,3]},0); })();
	for(let i = 0, after = 0; after < 12 && i < 60; i++) { await tick(); globalThis.gc(); await tick(); if(done()) return true; if(control) after++; }
	return !control;
}

/* the analyses of the execution are unreachable now: collected together with those of others */
let pending = [];
async function release() {
	if(!inst.analyses.size) { clean(); return; }
	check(!host.violations.length,'memory',() => `${what}: ${host.violations[0]}`);
	pending.push([inst,what]); if(pending.length >= 48 || replay) await settle();
}
async function settle() {
	const l = pending; pending = [];
	if(l.length) await collect(() => l.every(([i]) => !i.analyses.size));
	for([inst,what] of l) { check(!inst.analyses.size,'collected',() => `${what}: the analysis is not destroyed once it is unreachable`); collected++; clean(); }
}

/* ---- images ---- */
function pixels(w, h, kind, f = 0) {
	const o = new Float32Array(w*h);
	const r = k => { let x = Math.imul(k+1,2654435761) + Math.imul(f,40503) | 0; x ^= x >>> 13; x = Math.imul(x,0x5bd1e995); x ^= x >>> 15; return (x >>> 0) % 1000 / 1000; };
	for(let y = 0; y < h; y++) for(let x = 0; x < w; x++) {
		const i = y*w+x;
		if(kind === 0) o[i] = r(i);
		else if(kind === 1) o[i] = (r(x)+r(100+y))/2;
		else {
			/* a smaller picture, interpolated */
			const sw = Math.max(1,w*3/5|0), sh = Math.max(1,h*2/3|0), u = Math.max(0,(x+.5)*sw/w-.5), v = Math.max(0,(y+.5)*sh/h-.5), u0 = u|0, v0 = v|0, u1 = Math.min(sw-1,u0+1), v1 = Math.min(sh-1,v0+1), s = (a, b) => r(b*97+a);
			o[i] = (s(u0,v0)*(1-u+u0)+s(u1,v0)*(u-u0))*(1-v+v0)+(s(u0,v1)*(1-u+u0)+s(u1,v1)*(u-u0))*(v-v0);
		}
	}
	if(kind === 3) o[w*h-1] = NaN;
	return o;
}
function film(n, w, h, kind) { const o = new Float32Array(n*w*h); for(let f = 0; f < n; f++) o.set(pixels(w,h,kind === 3 && f < n-1 ? 2 : kind,f),f*w*h); return o; }
const forms = [['Float32Array',d => d],['part of a larger array',d => { const b = new Float32Array(d.length+9).fill(0.123); b.set(d,5); return b.subarray(5,5+d.length); }],['longer array',d => { const b = new Float32Array(d.length+7).fill(NaN); b.set(d); return b; }],['Array',d => Array.from(d)],['Float64Array',d => Float64Array.from(d)]];
const names = [undefined,null,'sign','mag','orig','zerox'];
const asMethod = m => m === undefined ? undefined : m === null ? null : B.Method.get(m);

/* ---- modes ---- */
const somePar = [{},{range: 1},{threshold: 0},{range: 1, threshold: 0},{range: 2, threshold: 0.3},{range: 3, threshold: 0, compression_filter: 1},{compression_filter: 2, threshold: 0, range: 1},{threshold: 1, range: 1},{range: 1000000, threshold: 0.5},{range: 0},{compression_filter: 0}];
const pnames = p => show(p);
async function detect() {
	const sizes = Q([1,2,3,5,8,13,27,40],[1,2,3,4,5,6,7,8,9,12,13,16,20,25,26,27,28,30,40,48]);
	const w = pick(sizes), h = pick(sizes), kind = choose(4); mine();
	const n = choose(Q(3,4)), m = pick(names), p = pick(somePar), analysis = choose(2), form = choose(forms.length), growing = choose(2);
	if(m === undefined && Object.keys(p).length) throw new Skip;
	if(!THOROUGH && (w*7+h*3+kind+n+form+somePar.indexOf(p)+names.indexOf(m)) % 5) throw new Skip;
	if(growing && form && !THOROUGH) throw new Skip;
	const d = film(n,w,h,kind), [fname,f] = forms[form];
	begin(`${analysis ? 'analysis' : 'detection'} of ${n} ${['noise','separable','upscaled','invalid'][kind]} ${w}x${h} images (${fname}), method ${m}, ${pnames(p)}${growing ? ', memory growing' : ''}`,growing);
	if(!analysis) {
		const want = refDetect(d,n,w,h,m ?? null,p), args = m === undefined ? [] : Object.keys(p).length || form & 1 ? [asMethod(m),{...p}] : [asMethod(m)];
		const a = f(d), before = Array.from(a), got = attempt(() => B.resDetect(a,n,w,h,...args));
		judgeLists(got,want,'resDetect');
		check(before.every((x, i) => Object.is(x,a[i])),'input',() => `${what}: the image passed in was changed`);
		clean(); outcomes.add(hash([what.length,want])); sample(`${what}: ${want.e ? errstr(want.e) : show(want.widths.slice(0,3))}`); trace(what,show(want));
	}
	else {
		await life1(d,n,w,h,m,p,f);
	}
}
async function life1(d, n, w, h, m, p, f) {
	let wants = [];
	(() => {
		const ref = new Ref(w,h,m ?? null,p), args = m === undefined ? [] : Object.keys(p).length ? [asMethod(m),{...p}] : [asMethod(m)];
		const c = attempt(() => new B.Analysis(w,h,...args)); judge(c,ref,'the constructor'); wants.push(ref.e);
		if(ref.e) { clean(); return; }
		const base = inst.live(); clean(base);
		for(let i = 0; i <= n; i++) {
			const got = attempt(() => c.r.analysisResults()), want = ref.results();
			judgeLists(got,want,`analysisResults after ${i} images`); clean(base); wants.push(want);
			if(i === n) break;
			const img = d.subarray(i*w*h,(i+1)*w*h), e = ref.analyze(img);
			judge(attempt(() => c.r.analyzeImage(f(img))),{e},`analyzeImage ${i}`); clean(base); wants.push(e);
		}
	})();
	await release();
	outcomes.add(hash([w*100+h,wants])); sample(`${what}: ${show(wants).slice(0,100)}`); trace(what,show(wants));
}
/* every combination of parameters, valid or not, in every order */
async function params() {
	const R = ['-',0,1,3,12,-1,1.5,NaN,2**32,2**32+1,2**32-1,undefined,Infinity,0.5], T = ['-',0,0.4,1,-0.1,1.1,NaN,Infinity,undefined], C = ['-',0,1,2,31,32,255,256,257,-1,0.5,undefined,NaN];
	const r = pick(R), t = pick(T), c = pick(C), order = choose(6); mine(); const extra = choose(2), analysis = choose(2);
	const e = [['range',r],['threshold',t],['compression_filter',c]], perm = [[0,1,2],[0,2,1],[1,0,2],[1,2,0],[2,0,1],[2,1,0]][order], p = {};
	if(e.filter(x => x[1] !== '-').length < 2 && order) throw new Skip;
	if(extra && order) throw new Skip;
	for(const i of perm) if(e[i][1] !== '-') p[e[i][0]] = e[i][1];
	if(extra) p.treshold = 0.1;
	/* whether a key without a value counts as given is not defined */
	const undef = Object.values(p).includes(undefined), w = 20, h = 17, d = pixels(w,h,2);
	begin(`${analysis ? 'analysis' : 'detection'} with ${Object.entries(p).map(([k,v]) => k + ': ' + v).join(', ')}`,false);
	if(!analysis) {
		const got = attempt(() => B.resDetect(d,1,w,h,null,p));
		if(!(undef && !got.e)) { const want = refDetect(d,1,w,h,null,Object.fromEntries(Object.entries(p).filter(x => x[1] !== undefined))); if(!undef || want.e) judgeLists(got,want,'resDetect'); }
		clean(); outcomes.add(hash([got.e,got.r])); sample(`${what}: ${got.e ? got.x.message : show(got.r.widths.slice(0,2))}`); trace(what,got.e ? got.x : show(got.r));
		return;
	}
	let got;
	(() => {
		const ref = new Ref(w,h,null,Object.fromEntries(Object.entries(p).filter(x => x[1] !== undefined)));
		const c = attempt(() => new B.Analysis(w,h,null,p)); got = c.e;
		if(!undef || ref.e) judge(c,ref,'the constructor');
		if(!c.e && !ref.e) { judge(attempt(() => c.r.analyzeImage(d)),{e: ref.analyze(d)},'analyzeImage'); if(!undef) judgeLists(attempt(() => c.r.analysisResults()),ref.results(),'analysisResults'); }
	})();
	await release();
	outcomes.add(hash(['a',got])); trace(what,got);
}
/* sizes that are no sizes, arrays too short for them, and the limits of 32 bits */
async function sizes() {
	const V = [0,1,4,9,-1,1.5,NaN,Infinity,-Infinity,undefined,2**32,2**32+4,2**32-1,65536,46341,32768,65535,2**31,2**30,4e9,16384];
	const w = pick(V), h = pick(V); mine(); const which = choose(3), n = which === 1 ? pick([1,0,2,-1,1.5,2**32+1,NaN,2**20]) : 1, len = pick([0,1,3,4,5,15,16,17,81,200]);
	const big = whole(w,32) && whole(h,32) ? w*h : 0;
	begin(`${which ? 'detection' : 'analysis'} of ${n} images of ${w}x${h} in an array of ${len}`,false);
	const d = pixels(len,1,0);
	/* the limit, by its definition: no buffer of floats, of which the library needs some, can be larger than the address space */
	if(which) {
		if(which === 2 && len !== 16) throw new Skip;
		const bad = ![n,w,h].every(v => whole(v,32)), want = bad || n*w*h > len ? {e: -1} : refDetect(d,n,w,h,null,{});
		judgeLists(attempt(() => which === 2 ? B.resDetect(d,n,w,h,null,{range: 1, threshold: 0}) : B.resDetect(d,n,w,h)),which === 2 && !want.e ? refDetect(d,n,w,h,null,{range: 1, threshold: 0}) : want,'resDetect');
		clean(); outcomes.add(hash(want)); trace(what,show(want)); return;
	}
	let e;
	(() => {
		const bad = ![w,h].every(v => whole(v,32)), limit = big && big*4 > 2**32-1, want = {e: bad ? -1 : limit ? 5 : big > 2**23 ? 1 : new Ref(w,h,null,{range: 1}).e};
		const c = attempt(() => new B.Analysis(w,h,null,{range: 1, threshold: 0})); judge(c,want,'the constructor'); e = want.e;
		if(want.e) { clean(); return; }
		const base = inst.live();
		const ref = new Ref(w,h,null,{range: 1, threshold: 0}), g = attempt(() => c.r.analyzeImage(d)); judge(g,{e: len < w*h ? -1 : ref.analyze(d)},`analyzeImage with ${len} pixels`); clean(base);
		judgeLists(attempt(() => c.r.analysisResults()),ref.results(),'analysisResults'); clean(base);
	})();
	await release();
	outcomes.add(hash([e,w,h])); trace(what,e);
}
/* every allocation refused, once and for good */
async function oom() {
	const op = choose(4), w = pick([5,30]), h = pick([4,27]), m = pick([null,'mag']), p = pick([{},{range: 1, threshold: 0},{range: 0},{compression_filter: 3, threshold: 0.2},{threshold: 2}]), all = choose(2), kind = pick([2,3]), k = 1+choose(40); mine();
	if(op === 0 && k > 30) throw new Skip;
	const d = pixels(w,h,kind); let past = false, e;
	begin(`${['resDetect','new Analysis','analyzeImage','analysisResults'][op]} of ${w}x${h}${kind === 3 ? ' (invalid)' : ''}, method ${m}, ${pnames(p)}, ${all ? 'no memory from' : 'refusing'} allocation ${k}`,false);
	const nomem = (got, want, name) => {
		inst.disarm();
		if(!inst.refused) { past = true; judge(got,want,name); return; }
		ooms++;
		check(got.e === 1 || got.e === -2 && got.x instanceof Error && /memory/i.test(got.x.message) || got.e && got.e === want.e,'oom',() => `${what}: ${name} ${got.e ? 'throws ' + got.x : 'succeeds'} although memory was refused`);
	};
	if(op === 0) {
		const want = refDetect(d,1,w,h,m,p); inst.arm(k,all);
		const got = attempt(() => B.resDetect(d,1,w,h,asMethod(m),p)); nomem(got,want,'resDetect'); e = got.e; clean();
	}
	else {
		(() => {
			const ref = new Ref(w,h,m,p);
			if(op === 1) inst.arm(k,all);
			const c = attempt(() => new B.Analysis(w,h,asMethod(m),p)); e = c.e;
			if(op === 1) nomem(c,ref,'the constructor'); else judge(c,ref,'the constructor');
			if(c.e) { clean(); return; }
			const base = inst.live();
			if(op === 2) { inst.arm(k,all); const g = attempt(() => c.r.analyzeImage(d)), w1 = {e: kind === 3 ? 3 : 0}; nomem(g,w1,'analyzeImage'); e = g.e; clean(base); if(!g.e) ref.analyze(d); }
			const e2 = ref.analyze(d); judge(attempt(() => c.r.analyzeImage(d)),{e: e2},'analyzeImage'); clean(base);
			if(op === 3) { inst.arm(k,all); const g = attempt(() => c.r.analysisResults()); nomem(g,ref.results(),'analysisResults'); e = g.e; clean(base); }
			judgeLists(attempt(() => c.r.analysisResults()),ref.results(),'analysisResults afterwards'); clean(base);
		})();
		await release();
	}
	outcomes.add(hash([op,e,k,past])); sample(`${what}: ${e}`); trace(what,e);
	if(past) { /* fewer allocations than that: no further ones to refuse */ cut = true; }
}
let cut = false;
/* two analyses used in turn, dropped and collected */
async function life() {
	const len = Q(4,5), ops = []; for(let i = 0; i < len; i++) { ops.push(choose(11)); if(i === 1) mine(); }
	/* collections take time: at most one in a sequence when that is short */
	if(!THOROUGH && ops.filter(o => o >= 8).length > 1) throw new Skip;
	begin(`operations ${ops.join(' ')}`,false);
	const P = [{range: 1, threshold: 0},{range: 2, threshold: 0.2, compression_filter: 1}], S = [[12,9],[7,16]], M = ['sign','mag'];
	const frames = [pixels(12,9,2,0),pixels(12,9,0,1),pixels(7,16,2,2),pixels(7,16,1,3)], bads = [pixels(12,9,3),pixels(7,16,3)];
	let o = [null,null], ref = [null,null], key = [[],[]], gcs = 0;
	const make = k => { o[k] = new B.Analysis(...S[k],B.Method.get(M[k]),P[k]); ref[k] = new Ref(...S[k],M[k],P[k]); key[k] = []; };
	/* not a closure that would keep them */
	const step = op => {
		if(op < 8) {
			const k = op >> 2;
			if(!o[k]) make(k);
			const base = inst.live();
			switch(op & 3) {
				case 0: judge(attempt(() => o[k].analyzeImage(frames[k*2])),{e: ref[k].analyze(frames[k*2])},'analyzeImage'); key[k].push(0); break;
				case 1: judge(attempt(() => o[k].analyzeImage(frames[k*2+1])),{e: ref[k].analyze(frames[k*2+1])},'analyzeImage'); key[k].push(1); break;
				case 2: judge(attempt(() => o[k].analyzeImage(bads[k])),{e: ref[k].analyze(bads[k])},'analyzeImage of an invalid image'); break;
				case 3: judgeLists(attempt(() => o[k].analysisResults()),ref[k].results(),'analysisResults'); break;
			}
			clean(base);
		}
		else if(op < 10) { o[op-8] = null; ref[op-8] = null; key[op-8] = []; }
	};
	for(const op of ops) {
		step(op);
		if(op >= 8) { const n = o.filter(x => x).length; if(op === 10 || inst.analyses.size > n) { check(await collect(() => inst.analyses.size <= n),'collected',() => `${what}: an analysis is not destroyed once it is unreachable`); collected++; gcs++; } check(inst.analyses.size === n,'collected',() => `${what}: ${n} analyses are in use, ${inst.analyses.size} are left`); clean(inst.live()); }
		states.add(hash(key));
	}
	for(let k = 0; k < 2; k++) if(o[k]) judgeLists(attempt(() => o[k].analysisResults()),ref[k].results(),'analysisResults at the end');
	o[0] = o[1] = null;
	if(gcs) { check(await collect(() => !inst.analyses.size),'collected',() => `${what}: the analyses are not destroyed once they are unreachable`); clean(); }
	else await release();
	outcomes.add(hash([ops,key])); sample(what); trace(what);
}
/* what the binding tells about the library */
async function info() {
	const k = choose(5); const name = k === 1 ? pick(['sign','mag','orig','zerox','','none','SIGN','sign ','é','sig','signs']) : null; mine();
	begin(['methods','Method.get ' + show(name),'libVersion','defaultRange','RDError'][k],false);
	const r = new Instance(false,true); r.fresh();
	const all = []; for(let p = r.call('resdet_methods',[]); r.u32[p>>>2]; p += 12) all.push({name: r.str(r.u32[p>>>2]), threshold: r.f32[(p>>>2)+2]});
	check(all.length > 3,'library','too few methods');
	if(k === 0) { const got = attempt(() => B.methods()); judge(got,{e: 0},'methods'); check(show(got.r.map(m => ({name: m.name, threshold: m.threshold}))) === show(all),'methods',() => `methods() gives ${show(got.r)} instead of ${show(all)}`); got.r.forEach((m, i) => { const a = attempt(() => B.resDetect(pixels(30,28,2),1,30,28,m,{range: 1})); judgeLists(a,refDetect(pixels(30,28,2),1,30,28,all[i].name,{range: 1}),`resDetect with method ${i}`); }); }
	if(k === 1) { const got = attempt(() => B.Method.get(name)); judge(got,{e: 0},'Method.get'); const w = all.find(m => m.name === name); check(w ? got.r && got.r.name === w.name && got.r.threshold === w.threshold : got.r === undefined || got.r === null,'methods',() => `Method.get(${show(name)}) gives ${show(got.r)}`); }
	if(k === 2) check(B.libVersion() === r.str(r.call('resdet_libversion',[])),'version',() => `libVersion() gives ${B.libVersion()}`);
	if(k === 3) check(B.defaultRange() === r.call('resdet_default_range',[]),'range',() => `defaultRange() gives ${B.defaultRange()}`);
	if(k === 4) for(let e = 1; e < 8; e++) { const x = new B.RDError(e); check(x instanceof Error && x.rderror === e && x.message === errstr(e),'error',() => `RDError(${e}) is ${x.rderror}, "${x.message}"`); }
	clean(); outcomes.add(hash([k,name])); trace(what);
}

/* ---- the search ---- */
const mode = {detect,params,sizes,oom,life,info}[MODE], t0 = Date.now(); let last = false;
for(;;) {
	choices = []; arity = []; cut = false;
	try { if(last) await settle(); else { await mode(); execs++; } }
	catch(x) {
		/* nothing the harness does itself throws: what comes out here began in the binding or the library */
		if(!(x instanceof Violation) && !(x instanceof Skip)) { trace(x.stack); x = new Violation('exception',String(x && x.stack)); }
		if(x instanceof Violation) {
			execs++;
			if(known.has(x.sig)) known.set(x.sig,known.get(x.sig)+1);
			else { lines.push(JSON.stringify({fail: {sig: x.sig, msg: x.msg.slice(0,1500), choices}})); trace('VIOLATED',x.sig,x.msg); finish(1); }
		}
	}
	if(last) break;
	if(replay) { last = true; continue; }
	/* once nothing is left to refuse, larger numbers are the same execution */
	let n = choices.length; if(cut) n = Math.min(n,choices.length);
	while(n > 0 && (choices[n-1]+1 >= arity[n-1] || (cut && n === choices.length))) n--;
	if(!n) { last = true; continue; }
	prefix = choices.slice(0,n); prefix[n-1]++;
	if(Date.now()-t0 > BUDGET*1000) { capped = 1; last = true; }
}
finish(0);
