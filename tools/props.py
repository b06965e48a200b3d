import json
L="src/lyra2.rs"; M="src/lyra2mod/mod.rs"
def P(id,title,st,over,text,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
ps=[
P("C01","The KDF returns exactly the Lyra2 key for every admissible parameter set",
 "For every key length k, password, salt, time cost T>=1, row count R>=3 and column count C>=1 whose padded input fits in the R x C matrix of 96-byte blocks, lyra2::lyra2(k, pwd, salt, T, R, C) returns the Lyra2 key. That key is defined by: a sponge over BLAKE2b's round function absorbing, in 64-byte blocks, the whole 8-byte little-endian words of pwd then of salt, then the words k, |pwd|, |salt|, T, R, C, padded 10*1 (0x80 in the next word, 0x01 in the last byte of the last block); the Setup phase over all R rows (with its doubling revisit window); T Wandering passes picking row* = state[0] & (R-1) and walking row = (row+step) & (R-1), step = R/2-1 on odd passes and -1 on even ones, until row is 0 again; a full-round absorb of the first block of the last row*; and a full-round squeeze of k bytes.",
 ["inputs","configurations"],"all k, pwd, salt, T>=1, R>=3, C>=1 with 8*((|pwd|+|salt|+48)/64+1) <= 12*R*C and sizes that fit in memory",
 "The tests check a handful of vectors: pwd always equals salt, at most 36 bytes, k in {16,32,48}, T in {1,8}, R in {3,4,8}, C in {2,4,8}; longer inputs, pwd != salt, even passes mixing with odd ones on large matrices, revisit windows beyond the second, and long keys are never run.",
 [L,"src/utils.rs"],[("parameter packing and 10*1 padding",L),("absorb / reduced squeeze / duplex loops",L),("Setup window update",L),("Wandering row selection",L),("squeeze",L)],["lyra2::lyra2::lyra2"],
 [("memory matrix","R x C blocks of twelve 64-bit words, also used to stage the padded input",L),("sponge state","sixteen 64-bit words",L)]),
P("C02","lyra2::sum is Lyra2 with the message as password and salt, k=32, T=1, R=C=4",
 "For every byte string x of at most 743 bytes (longer ones do not fit the matrix), lyra2::lyra2::sum(x) returns the 32-byte Lyra2 key with password x, salt x, time cost 1, 4 rows and 4 columns, for that Lyra2 function defined in C01.",
 ["inputs"],"all byte strings x that fit the 4 x 4 matrix (|x| <= 743)",
 "Only two vectors of 3 and 36 bytes exist; every other length, word count, block count and row-selection pattern is untested.",
 [L],[("parameter choice","lyra2::lyra2::sum")],["lyra2::lyra2::sum"]),
P("C03","Lyra2Z is Lyra2(32, b, b, T=8, R=8, C=8) of the BLAKE-256 digest b",
 "For every byte string x, lyra2z::sum(x) equals the 32-byte Lyra2 key with password and salt both equal to BLAKE-256(x), time cost 8, 8 rows and 8 columns.",
 ["inputs"],"all byte strings","Three vectors are tested; the pseudorandom row schedule of 64 duplexed rows differs for every input.",
 ["src/lyra2z.rs",L],[("chain of stages","src/lyra2z.rs")],["lyra2::lyra2z::sum"]),
P("C04","Lyra2RE is the published five-stage chain",
 "For every byte string x, lyra2re::sum(x) equals Groestl-256(Skein-512-256(Lyra2(32, h, h, T=1, R=8, C=8))) with h = Keccak-256(BLAKE-256(x)).",
 ["inputs"],"all byte strings","Three vectors are tested; an input-dependent deviation in any stage is invisible to them.",
 ["src/lyra2re.rs",L],[("chain of stages","src/lyra2re.rs")],["lyra2::lyra2re::sum"]),
P("C05","Lyra2REv2 is the published seven-stage chain",
 "For every byte string x, lyra2rev2::sum(x) equals BMW-256(CubeHash-256(Skein-512-256(Lyra2(32, c, c, T=1, R=4, C=4)))) with c = CubeHash-256(Keccak-256(BLAKE-256(x))).",
 ["inputs"],"all byte strings","Three vectors are tested; carries, rotations and row selections that those three digests do not exercise are untested.",
 ["src/lyra2rev2.rs",L,"src/cubehash/mod.rs","src/bmw/mod.rs"],[("chain of stages","src/lyra2rev2.rs")],["lyra2::lyra2rev2::sum"]),
P("C06","Lyra2REv3 is the published five-stage chain with the modified Lyra2",
 "For every byte string x, lyra2rev3::sum(x) equals BMW-256(L(CubeHash-256(L(BLAKE-256(x))))), where L(y) is the 32-byte modified Lyra2 key of C13 with password y, salt y, T=1, R=4, C=4.",
 ["inputs"],"all byte strings","A few vectors are tested; the modified row selection depends on sixteen state words chosen by the data.",
 ["src/lyra2rev3.rs",M,"src/cubehash/mod.rs","src/bmw/mod.rs"],[("chain of stages","src/lyra2rev3.rs")],["lyra2::lyra2rev3::sum"]),
P("C07","The four coin hashes always return, with exactly 32 bytes",
 "lyra2z::sum, lyra2re::sum, lyra2rev2::sum and lyra2rev3::sum return normally (no panic, no endless loop) on every byte string, of any length including zero, and the result is always exactly 32 bytes long.",
 ["inputs"],"all byte strings of any length","Inputs of 3, 12 and 36 bytes (and one 80-byte header) are tested; an index, overflow or loop bound that fails for some digest value or length would not show.",
 ["src/lyra2z.rs","src/lyra2re.rs","src/lyra2rev2.rs","src/lyra2rev3.rs",L,M,"src/cubehash/mod.rs","src/bmw/mod.rs"],[("fixed 32-byte interfaces between stages","src/lyra2re*.rs"),("masked row indices",L)],["lyra2::lyra2z::sum","lyra2::lyra2re::sum","lyra2::lyra2rev2::sum","lyra2::lyra2rev3::sum"]),
P("C08","The derived key has exactly the requested length, block by block",
 "For every requested length k (zero, less than 8, not a multiple of 8 or 96, more than 96), the KDF returns exactly k bytes, without panicking. Byte p of the key is byte p mod 96 (little-endian word order) of the sponge's first twelve words after floor(p/96) further full-round permutations of the final state.",
 ["inputs","configurations"],"all k, for every final sponge state","Key lengths 16, 32 and 48 are tested: one partial block, never two blocks, a block boundary, or a length that is not a multiple of 8.",
 [L,M],[("squeeze",L),("squeeze",M)],["lyra2::lyra2::lyra2","key length and bytes for a given final state"]),
P("C09","Invalid parameters never yield a key",
 "A KDF call with time cost 0, with fewer than 3 rows, or with password and salt too long for their padded form to fit in the matrix always panics; it never returns a key.",
 ["inputs","configurations"],"all k, pwd, salt, C and all (T, R) with T<1 or R<3, or 8*((|pwd|+|salt|+48)/64+1) > 12*R*C","No test calls the KDF with an invalid parameter.",
 [L,M],[("parameter check",L),("bounds-checked staging of the padded input in the matrix",L)],["lyra2::lyra2::lyra2"]),
P("C10","On admissible parameters the KDF never panics, overflows or loops forever",
 "For every k, pwd, salt, T>=1, R>=3 and C>=1 whose padded input fits in the matrix and whose sizes fit in memory, the KDF returns: every matrix, state and input index is in range, no integer operation overflows (so debug and release builds agree), and both the Setup and the Wandering walk end, also when R is not a power of two.",
 ["inputs","configurations"],"all admissible (k, pwd, salt, T, R, C)","R in {3,4,8} and C in {2,4,8} are tested; the walk over a row count that is not a power of two, revisit windows above 8 and large matrices are not.",
 [L,M,"src/utils.rs"],[("row masks and window update",L),("index arithmetic",L)],["lyra2::lyra2::lyra2"]),
P("C11","The CubeHash stage is CubeHash16/32-256 for every 32-byte message",
 "For every 32-byte message m, the CubeHash stage of Lyra2REv2 and Lyra2REv3 returns the 32-byte CubeHash digest of m with parameters r=16, b=32, h=256 (initial state, two blocks of sixteen rounds each with 0x80 padding, last-word flip, 160 finalisation rounds, little-endian output).",
 ["inputs"],"all 2^256 messages","One message is tested; a wrong rotation or a carry that this message does not excite passes.",
 ["src/cubehash/mod.rs","src/utils.rs"],[("sixteen rounds","src/cubehash/mod.rs"),("block input","src/cubehash/mod.rs"),("precomputed initial value","src/cubehash/mod.rs")],["cubehash stage via lyra2::lyra2rev2::sum and lyra2::lyra2rev3::sum"]),
P("C12","The BMW stage is BMW-256 for every single-block message",
 "For every message m of at most 55 bytes (in particular every 32-byte one), the BMW stage of Lyra2REv2 and Lyra2REv3 returns the 32-byte Blue Midnight Wish digest BMW-256(m): padding with 0x80 and the 64-bit bit length, one compression from the standard initial value, the final compression under the 0xaaaaaaa0.. constants, and the last eight chaining words in little-endian order.",
 ["inputs"],"all messages of 0..55 bytes","Messages of 3, 12 and 36 bytes are tested; the 32-byte length used by the hashes and almost all carry patterns are not.",
 ["src/bmw/mod.rs","src/utils.rs"],[("compression function","src/bmw/mod.rs"),("padding","src/bmw/mod.rs")],["bmw stage via lyra2::lyra2rev2::sum and lyra2::lyra2rev3::sum"]),
P("C13","The Lyra2REv3 stage is Lyra2 with the indirect row selection",
 "For every admissible (k, pwd, salt, T, R, C) as in C01, the modified KDF used by Lyra2REv3 returns the key defined in C01 with one change: an index i starts at 0 before the first Wandering pass, and each Wandering row is picked by i = state[i mod 16], row* = state[i mod 16] & (R-1).",
 ["inputs","configurations"],"all admissible (k, pwd, salt, T, R, C)","Tests have four vectors with R in {3,4}; which of the sixteen words select the row depends on the data, and i carried across passes (T>1) is never tested.",
 [M,"src/utils.rs"],[("indirect row selection",M)],["modified Lyra2 stage via lyra2::lyra2rev3::sum"]),
P("C14","Every hash is a pure function of its arguments",
 "The result of each public function depends on its arguments alone: repeating a call, interleaving it with other calls, panicking calls included, or running it on several threads at once gives the same bytes as a first call in a fresh process, and no call reads or leaves state outside its own frame.",
 ["histories","schedules"],"all call histories and all thread interleavings","Tests make each call once, in one order, single-threaded per test.",
 ["src/lib.rs",L,M,"src/bmw/mod.rs","src/cubehash/mod.rs","src/lyra2z.rs","src/lyra2re.rs","src/lyra2rev2.rs","src/lyra2rev3.rs"],[("no statics, no thread-locals, no interior mutability, owned buffers","whole crate")],["all public functions"]),
P("C15","Every argument of the KDF is bound into the key",
 "Two admissible KDF calls that differ in any argument (key length, a byte of the password, a byte of the salt, either length, T, R or C) absorb different block sequences, so neither their keys nor a common prefix of their keys coincide other than by a sponge collision. In particular moving bytes between password and salt, appending a byte, or asking for a longer key always changes the key.",
 ["inputs","configurations"],"all pairs of distinct admissible argument tuples","No test compares two calls; pwd equals salt in every one of them.",
 [L,M],[("basil of k, |pwd|, |salt|, T, R, C appended to pwd||salt before 10*1 padding",L)],["lyra2::lyra2::lyra2"]),
]
for p in ps: assert len(p['title'])<=80,(p['id'],len(p['title']))
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(p) for p in ps)+'\n')
