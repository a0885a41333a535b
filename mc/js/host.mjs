/*
 * libresdet.mjs - stands in for the module Emscripten makes of the library: the same interface (cwrap, getValue,
 * UTF8ToString, _malloc, _free, HEAPF32 and the functions of exported_functions.txt), around a wasm32 build of the
 * library in the working tree.  Every execution gets a fresh instance; memory is never reused within it, is fenced,
 * counted and can be refused, and the binding is held to the library's contract at the boundary.
 */
import fs from 'node:fs';
const compiled = new WebAssembly.Module(fs.readFileSync(process.env.MC_WASM));
const exported = new Set(process.env.MC_EXPORTS.split(','));
export const host = { violations: [], onviolation: null };
function bad(what) { host.violations.push(what); }
export { bad };

/* analyses of all instances: a finalizer may come when its instance is no longer the current one */
const owner = new Map();
const LIMIT = 96*1024*1024;
export class Instance {
	/* reference: not the binding's, so that no finalizer will ask for its analyses */
	constructor(growing = false, reference = false) {
		this.reference = reference;
		this.blocks = new Map();       /* address -> size, live */
		this.freed = new Map();
		this.nalloc = 0; this.fail = -1; this.failAll = false; this.refused = 0; this.growing = growing;
		this.analyses = new Map();     /* live RDAnalysis -> pixels */
		const env = {
			mc_malloc: n => this.malloc(n >>> 0), mc_free: p => this.free(p >>> 0), mc_size: p => this.blocks.get(p >>> 0),
			m_cos: Math.cos, m_sin: Math.sin, m_pow: Math.pow, m_log: Math.log, m_exp: Math.exp, m_atan: Math.atan,
		};
		const imports = { env: {} };
		for(const i of WebAssembly.Module.imports(compiled))
			imports.env[i.name] = env[i.name] ?? (() => { bad('the library calls ' + i.name); throw new Error(i.name); });
		/* memories of instances no longer in use count until they are collected */
		try { this.x = new WebAssembly.Instance(compiled,imports).exports; }
		catch(e) { if(!(e instanceof RangeError)) throw e; globalThis.gc(); this.x = new WebAssembly.Instance(compiled,imports).exports; }
		this.top = this.x.__heap_base.value + 64; this.views();
	}
	views() {
		this.u8 = new Uint8Array(this.x.memory.buffer); this.u32 = new Uint32Array(this.x.memory.buffer); this.i32 = new Int32Array(this.x.memory.buffer); this.f32 = new Float32Array(this.x.memory.buffer);
	}
	/* memory as of now: growth replaces the buffer */
	fresh() { if(this.u8.buffer !== this.x.memory.buffer) this.views(); return this; }
	malloc(n) {
		this.nalloc++;
		if(this.nalloc === this.fail || (this.failAll && this.fail > 0 && this.nalloc >= this.fail)) { this.refused++; return 0; }
		let p = this.top + 16 & ~15;
		while(!this.reference && owner.has(p)) p += 16;
		const end = p + n + 32;
		if(end > LIMIT) { return 0; }
		const have = this.x.memory.buffer.byteLength;
		if(end > have || this.growing) this.x.memory.grow(Math.max(1,Math.ceil((end-have)/65536)));
		this.fresh();
		this.u8.fill(0xA5,p-16,end);
		this.blocks.set(p,n); this.top = end;
		return p;
	}
	fences(p, n) {
		for(let i = 0; i < 16; i++) if(this.u8[p-1-i] !== 0xA5 || this.u8[p+n+i] !== 0xA5) { bad(`memory next to a block of ${n} bytes was written`); return; }
	}
	free(p) {
		if(!p) return;
		this.fresh();
		const n = this.blocks.get(p);
		if(n === undefined) { bad(this.freed.has(p) ? 'memory was released twice' : `${p} was released, which is no allocated memory`); return; }
		this.fences(p,n); this.blocks.delete(p); this.freed.set(p,n); this.u8.fill(0x5A,p,p+n);
	}
	/* is [p,p+n) inside one live block? */
	inside(p, n) {
		if(this.blocks.get(p) >= n) return true;
		for(const [q,m] of this.blocks) if(p >= q && p+n <= q+m) return true;
		return false;
	}
	readable(p, n) { return p > 0 && (p+n <= this.x.__heap_base.value && p >= 1024 || this.inside(p,n)); }
	live() { this.fresh(); for(const [p,n] of this.blocks) this.fences(p,n); return this.blocks.size; }
	arm(n, all) { this.nalloc = 0; this.fail = n; this.failAll = all; this.refused = 0; }
	disarm() { this.fail = -1; }
	str(p) { this.fresh(); if(!p) return ''; let e = p; while(this.u8[e]) e++; return new TextDecoder().decode(this.u8.subarray(p,e)); }
	/* calls a function of the library, checking what it is given */
	call(name, args) {
		const u = args.map(a => Number(a ?? 0) >>> 0), need = (p, n, what) => { if(!this.readable(p,n)) bad(`${name} is given ${what} of less than ${n} bytes`); };
		switch(name) {
			case 'resdet_create_analysis': if(u[3] && !this.blocks.has(u[3])) bad('resdet_create_analysis is given parameters that are not allocated'); if(u[4]) need(u[4],4,'an error'); break;
			case 'resdet_analyze_image': if(!this.analyses.has(u[0])) { bad('resdet_analyze_image is given something that is no analysis'); return 2; } if(u[1]) need(u[1],this.analyses.get(u[0])*4,'an image'); break;
			case 'resdet_analysis_results': if(!this.analyses.has(u[0])) { bad('resdet_analysis_results is given something that is no analysis'); return 2; } for(let i = 1; i < 5; i++) if(u[i]) need(u[i],4,'an output'); break;
			case 'resdet_destroy_analysis': if(!this.reference) { const o = owner.get(u[0]); if(o && o !== this) return o.call(name,args); owner.delete(u[0]); } if(u[0] && !this.analyses.delete(u[0])) { bad('resdet_destroy_analysis is given something that is no analysis'); return; } break;
			case 'resdetect': if(u[0] && u[1] && u[2] && u[3] && u[1]*u[2]*u[3] < 2**30) need(u[0],u[1]*u[2]*u[3]*4,'images'); for(let i = 4; i < 8; i++) if(u[i]) need(u[i],4,'an output'); if(u[9] && !this.blocks.has(u[9])) bad('resdetect is given parameters that are not allocated'); break;
			case 'resdet_parameters_set_range': case 'resdet_parameters_set_threshold': case 'resdet_parameters_set_compression_filter': if(u[0] && !this.blocks.has(u[0])) bad(name + ' is given parameters that are not allocated'); break;
		}
		const r = this.x[name](...args);
		if(name === 'resdet_create_analysis' && r) { this.analyses.set(r >>> 0,u[1]*u[2]); if(!this.reference) owner.set(r >>> 0,this); }
		host.calls++;
		return r;
	}
}
let current = null;
host.calls = 0;
host.use = i => { current = i; };

const heap = new Proxy({},{
	get(_, k) {
		const f = current.fresh().f32;
		if(k === 'set') return (src, at = 0) => {
			if(!Number.isInteger(at) || !current.inside(at*4,src.length*4)) bad(`${src.length} floats are stored at ${at*4}, outside allocated memory`);
			f.set(src,at);
		};
		if(typeof k === 'string' && /^\d+$/.test(k)) return f[k];
		const v = f[k];
		return typeof v === 'function' ? v.bind(f) : v;
	},
	set(_, k, v) { const f = current.fresh().f32; if(!current.inside(Number(k)*4,4)) bad(`a float is stored at ${k*4}, outside allocated memory`); f[k] = v; return true; }
});
const Module = {
	/* memory may have grown since the view was taken: like Emscripten's, views must be looked up when they are used */
	get HEAPF32() { return current.growing ? current.fresh().f32 : heap; },
	get HEAPU8() { return current.fresh().u8; }, get HEAP32() { return current.fresh().i32; }, get HEAPU32() { return current.fresh().u32; },
	UTF8ToString: p => { if(p && !current.readable(p,1)) bad('a string is read from unallocated memory'); return current.str(p); },
	getValue(p, type = 'i8') {
		if(type.endsWith('*')) type = '*';
		const n = type === 'i8' ? 1 : type === 'i16' ? 2 : 4;
		if(!current.readable(p,n)) bad(`a value is read at ${p}, which is not allocated`);
		current.fresh();
		switch(type) {
			case '*': return current.u32[p >>> 2];
			case 'i32': return current.i32[p >>> 2];
			case 'u32': return current.u32[p >>> 2];
			case 'float': return current.f32[p >>> 2];
			case 'i8': case 'i1': return current.u8[p] << 24 >> 24;
			default: throw new Error('invalid type for getValue: ' + type);
		}
	},
	setValue(p, v, type = 'i8') {
		if(type.endsWith('*')) type = '*';
		if(!current.inside(p,type === 'i8' ? 1 : 4)) bad(`a value is stored at ${p}, which is not allocated`);
		current.fresh();
		switch(type) { case '*': case 'i32': current.u32[p >>> 2] = v; break; case 'float': current.f32[p >>> 2] = v; break; case 'i8': current.u8[p] = v; break; default: throw new Error(type); }
	},
	cwrap(name, ret, types) {
		if(!exported.has('_' + name)) return () => { throw new Error(`Cannot call unknown function ${name}, make sure it is exported`); };
		return (...args) => {
			const temp = [];
			const conv = args.map((a, i) => {
				if(types[i] === 'string' && a !== null && a !== undefined && a !== 0) {
					/* on the stack while the call lasts */
					const b = new TextEncoder().encode(a), p = current.top + 16 & ~15; const have = current.x.memory.buffer.byteLength;
					if(p + b.length + 1 > have) current.x.memory.grow(Math.ceil((p+b.length+1-have)/65536));
					current.fresh().u8.set(b,p); current.u8[p+b.length] = 0; current.top = p+b.length+1; temp.push([p,b.length]); return p;
				}
				return a;
			});
			let r = current.call(name,conv);
			for(const [p,n] of temp) current.fresh().u8.fill(0x5A,p,p+n);
			if(ret === 'string') return current.str(r);
			if(ret === 'boolean') return Boolean(r);
			return r;
		};
	},
	ccall(name, ret, types, args) { return Module.cwrap(name,ret,types)(...(args ?? [])); },
};
for(const n of exported) {
	const f = n.slice(1);
	Module[n] = f === 'malloc' ? n => current.malloc(Number(n ?? 0) >>> 0) : f === 'free' ? p => current.free(Number(p ?? 0) >>> 0) : (...a) => current.call(f,a);
}
host.Module = Module;
export default async function() { return Module; }
