# exec'd by genmanifest.py: per property technique and note
EFF='effect analysis over the abstract interpretation of the SSA form: every memory write is attributed to the allocation it reaches (allocation-site ownership)'
TECH.update({
 'C01':EFF+'; summary-based mod analysis over the call graph for the functions working through reflection',
 'C06':EFF,'C07':EFF+', plus escape of argument slices into results',
 'C36':EFF+'; whole-package mod analysis of package-level variables with a lockset exemption',
 'C13':'call-graph reachability + taint-source rule (what an encoder may observe), ordering typestate of map ranges (ranged values must be sorted before they are observed), effect analysis of every encoder',
 'C16':'abstract interpretation of the SSA form: allocation sizes as linear terms against bytes proved available; depth-counter rule over the recursive call-graph cycle',
 'C18':'error-discipline (sticky error) analysis over the abstract interpretation of the SSA form with a failing writer',
 'C33':'typestate over the event trace (receive/decode/send/close/write) of an abstract interpretation of the SSA form',
 'C34':'dataflow (provenance of every byte reaching the cipher calls) + must-check typestate over an abstract interpretation of the SSA form',
 'C35':'dataflow/typestate (write-before-sum, provenance of the digest) over an abstract interpretation of the SSA form',
 'C19':'alias analysis: memory reachable from results of an abstract interpretation of the SSA form',
 'C26':'evaluation of constant-returning methods over the SSA form, method-set rule over go/types, exhaustiveness of tag names',
 'C30':'abstract interpretation of the SSA form with a model of reflect over witness struct types',
 'C31':'abstract interpretation of the SSA form with a model of reflect over witness struct types',
 'C32':'abstract interpretation of the SSA form with a model of reflect over witness struct types (must-error rule, cache-key rule)',
})
TECH['C41']='abstract interpretation of the SSA form: provenance of the converted number through conversion steps, each classified by what it can lose'
TECH['C40']='abstract interpretation of the SSA form with a string-piece domain (inverse-pair contracts, character sets) for printers and parsers'
U=' A path the domain cannot decide is counted in the evidence (undecided) and is not reported; on the unchanged tree there is none.'
NOTE.update({
 'C13':'Sources of nondeterminism are looked for in every function reachable from an encoder (calls, closures, all targets of interface calls); ranges over Go maps are checked to be consumed by sorting or by an order-free store; library calls are judged by a table.'+U,
 'C23':'Collections: header, one arbitrary iteration and footer inductively, and up to three entries exactly. Text of strings by the contract of the escaping routine (encoding/json) or by interpreting the escaping loop.'+U,
 'C30':'All contents and array lengths, for the witness struct types listed in DESIGN.md (each kind of field, nesting, out-of-order tags), not for all struct types: the code is generic in the type, the analysis is not.'+U,
 'C31':'For the witness struct types listed in DESIGN.md; every token sequence with up to three pairs and up to three elements per pair exactly.'+U,
 'C32':'For the witness struct types listed in DESIGN.md, one per tagging rule, with the schema cache empty, holding the type, or holding another type of the same name.'+U,
 'C41':'Rounding inside math/big, shopspring/decimal and the hardware is a contract (each step is exact or rounds to nearest); paths guarded by a fit test may use 64-bit steps.'+U,
 'C40':'Assumes the inverse-pair contracts of encoding/hex, encoding/base64, strconv and of Bytes/SetBytes; all contents, signs and exponents.'+U,
 'C33':'Values one to three exactly and one arbitrary later iteration inductively.'+U,
})
for i in [p['id'] for p in props]:
    NOTE.setdefault(i,BASE+U)
