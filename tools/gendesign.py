import json,os
b=json.load(open('/verif/bounds.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
seeds={}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open(f'/verif/seeded/{d}/meta.json'))
    seeds.setdefault(m['property'],[]).append(d)
how={
'C01':("Harnesses call the node, leaf and path functions on a symbolic index in each tree size.","The tree is defined a second time by level and position within the level; every function must agree with it (parent = level+1, position/2, and so on)."),
'C02':("Readers run on fully symbolic buffers of every length in bounds; writers on symbolic lengths.","An independent reading of the RFC 9000/9420 length rule in the harness; allocation is measured by the engine (and natively by runtime.MemStats)."),
'C03':("A generator builds every message type with symbolic field contents and shapes that deviate from a default; the value is encoded by the library and decoded again. `fields*` harnesses encode with the reference and compare what the library decodes field by field.","Equality of all fields; a hand-written encoder of the RFC's grammar (harness/enc.go, gen.go)."),
'C04':("Well-formed messages with symbolic contents are truncated, extended or altered; short byte strings are fully symbolic.","Whatever is accepted must encode to the same bytes; unknown enumerators and truncations must be refused."),
'C05':("The exported decoders and group operations run on symbolic bytes and on grammar messages with symbolic contents, also on welcomes an attacker can make.","No panic, no path beyond its step budget, allocation below a limit. These are checked by the engine on every path; a candidate must panic or hang natively too."),
'C06':("A reference member with all keys signs, seals and tags arbitrary contents and sends them to library members.","As C05; afterwards the group must still work: honest messages and commits are accepted and agree."),
'C07':("A rejected message (or a creation) is placed between honest steps; the later steps run against a reference peer that never saw it.","Behaviour: the pending proposals can be committed, messages are read, path secrets decrypted, newcomers join, all as if nothing had happened."),
'C08':("Trees of every shape in bounds are built with symbolic contents; additions, updates and removals are applied by the library and by the reference tree. Members follow reference commits, which only works when both trees agree.","Independent tree in harness/ref.go (a recursive one, without index arithmetic shared with the library)."),
'C09':("As C08, asking for resolutions and filtered direct paths of every node.","The recursive definition of RFC 9420 4.1.1/4.1.2."),
'C10':("Hashes of symbolic trees; pairs of trees with independent symbolic contents.","Value: the recursive definition on the reference side. Binding: equality of hash terms in the free algebra implies equality of contents, decided by the solver."),
'C11':("All secrets computed from symbolic inputs; pairs of inputs for distinctness; members following commits.","The RFC's formulas written out in the harness; free-algebra equality."),
'C12':("Secret trees with a symbolic encryption secret; messages sealed by the reference for every generation.","The definition of RFC 9420 section 9; pairwise disequality."),
'C13':("Library and reference members exchange messages with symbolic texts; messages are altered at a symbolic position or forged by a member.","Honest ones must return the text, all others an error."),
'C14':("Proposals and commits made by the reference with one thing wrong, symbolic where it has a value.","Accepted exactly when authentic."),
'C15':("Every history of operations in bounds is played between library and reference members; inconsistent commits are offered.","All members agree on what is observable: messages, further commits, joins, the epoch number. Inconsistent commits are refused and leave no trace."),
'C16':("Consistent commits of every short list of proposals; the rule functions on symbolic proposals.","The list of rules of RFC 9420 12.2 written out in the harness."),
'C17':("Key packages and leaves with one alteration, re-signed unless the alteration is in the signature.","Accepted exactly when valid under the rule list."),
'C18':("Trees grown by the reference with one node altered, the group context naming the altered tree, offered to a joiner.","Reference validation; trees grown honestly must be accepted."),
'C19':("Welcomes by the library or the reference, given to the invited member or others, altered by outsiders or members.","Joined and agreeing, or refused."),
'C20':("The rule on symbolic 64-bit bounds and a symbolic clock; members and joiners meeting such leaves.","Comparison in 128-bit arithmetic in the harness."),
'C22':("The support check runs on a symbolic number; groups created by the library are joined by reference members, who then commit.","The list of usable suites; agreement with the reference, which has its own table of algorithms."),
'C23':("Repeated operations in one execution; the reference reads guards, keys and secrets.","Random values are terms of their own; equality of two outputs, or of one byte across all messages, must be impossible. Natively the values are compared (accidental equality of 8 bytes excluded)."),
'C24':("Each call gets a copy of the message which is then overwritten with a symbolic difference, as are returned byte strings; histories go on.","Agreement with the reference as in C15; encodings compared before and after."),
'C21':("Paths made by the reference (an independent TreeKEM) for every committer and recipient; altered paths.","Agreement on the commit secret through the next epoch's messages, and use of the upper keys in the next path; altered paths are refused."),
}
times=dict(l.split() for l in open('/verif/tools/times.txt')) if os.path.exists('/verif/tools/times.txt') else {}
o=[]
w=o.append
w('''# Solver-based checking of go-mls

All 24 properties of properties.jsonl are decided by one method, symbolic
execution of the package's source with an SMT solver; none is listed as not
applicable. This file says how, what is assumed, what each check covers and
costs, and how the checks were tested.

    bash setup.sh                     # builds bin/gosym (offline)
    bash check.sh C01 [quick|thorough]
    bin/gosym -prop C15 -only vfH_C15_history -v
    bin/gosym -replay evidence/replays/C15-1.json  # run a counterexample again

## Method

1. `engine/` (program gosym) loads the source in /repo as it is at that
   moment, together with the files of `harness/`, which an overlay adds to
   package mls. Nothing is written to /repo. Package mls, cryptobyte and the
   parts of the standard library they use are turned into SSA
   (golang.org/x/tools/go/ssa); there is no hand-written model of the code
   under test.
2. A harness `vfH_<property>_<name>` asks for symbolic inputs (`vfU32`,
   `vfBytes`, `vfChoice`, …), calls the library and states the property with
   `vfAssert`. Integers, booleans and bytes are bit-vector terms; memory,
   slices, maps, closures and interfaces are concrete structures whose cells
   hold terms. Each branch on a term is put to the solver (z3, QF_BV, through
   a pipe); both sides are explored when both are possible. Simple diamonds
   are merged into if-then-else terms. A symbolic index or length is split
   into its possible values by the solver.
3. An assertion is the query "path condition and not assertion". Unsat on
   every path means it holds for all inputs in bounds. Run-time panics and a
   per-path step budget (loops without bound) and an allocation budget are
   checked on every path in the same way.
4. A model of a satisfiable query is a candidate. It is replayed in the
   compiled package (`go test -c -overlay`, up to three times) and reported as
   VIOLATION only when the real code fails as well. Candidates that do not
   reproduce are printed as notes and recorded in the evidence.
5. Up to 24 completed paths per harness are also solved for inputs and run
   natively; the outcome and all observed values have to agree with the
   engine's. This is what keeps the engine honest
   (`traces_validated_against_impl`). If one of these runs violates the
   property for real, that is reported too. Inputs of paths the engine cannot
   finish (unmodelled function) are run natively for the same reason; they
   count neither as validated nor as decided.

Exit status: 0 all explored paths hold, 1 violation confirmed natively, 2 no
path of any harness could be executed or the tree does not build. Running out
of the exploration budget (240 s quick, 780 s thorough) sets `exhaustive` to
false in the evidence and leaves the rest unexplored.

The evidence reports the functions executed, the bounds, paths, steps,
assertions, queries, unknown answers and solver time, all measured.

### Robustness against rewriting

Most harnesses use the exported interface only: `harness/ref.go` is an
independent implementation of RFC 9420 (trees, key schedule, framing, TreeKEM,
welcome) whose members share groups with library members. Agreement is
observed through what the members accept and send. Harnesses that call
unexported functions cover what cannot be reached through the interface in
bounds (large indices, all tree shapes, late generations); a declaration that
no longer compiles against the current source is left out (`engine/load.go`,
printed as "not applicable") and the rest still runs.
`engine/stdlib.go` models library functions the current code does not use
(fmt, errors, slices, maps, sync, channels, reflect.DeepEqual, crypto/hkdf, …)
so that other ways of writing the same thing can be followed.

## Assumptions

* Cryptography is ideal (a free algebra): hash, HMAC, HKDF and key generation
  are injective terms that equal nothing else; signatures verify and
  ciphertexts open exactly when they were made in the same execution with the
  matching key and the same inputs. Random bytes are fresh constants. Parsing
  of keys (lengths, malformed points) follows the real code's rules.
  Signatures are deterministic in the model.
* Maps are iterated in insertion order, in C15 and C17 also in other orders
  (the code must not depend on it; native runs use Go's random order). Goroutines run at once when started; the
  package starts none.
* Compiler, SSA construction and solver are right. Candidates and witnesses
  run natively, so mistakes here can hide a violation but not invent one.
* The clock is symbolic where it matters (C20), otherwise a fixed instant.

No hooks were needed in /repo.

## Properties
''')
for p in props:
    i=p['id']
    w(f"### {i} {p['title']}\n")
    w(f"*Decided by:* {how[i][0]}\n")
    w(f"*Oracle:* {how[i][1]}\n")
    w(f"*Bounds:* {b[i]}\n")
    w(f"*Why beyond tests:* {p['why_tests_cant']}\n")
    if i in times: w(f"*Cost:* {times[i]} s (quick, 8 cores, one run, partly next to other work).\n")
    w(f"*Planted bugs caught:* {', '.join(seeds.get(i,[])) or 'none planted'}.\n")
w(open('/verif/tools/design_tail.md').read())
open('/verif/DESIGN.md','w').write('\n'.join(o))
