#!/usr/bin/env python3
"""Single source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Every honestly cast ballot for a valid candidate is accepted",
  "For every supported curve group, every election configuration with a non-empty candidate range that fits the proof size, and every candidate number in the inclusive range (the lowest and the highest included), a ballot produced by the honest voter is accepted by the vote collector, both directly and after being serialised to JSON and parsed back. The honest voter can produce a ballot for every candidate of the range, and the ballot encrypts a candidate of the range.",
  ["inputs","configurations"],"all groups x all (lowest, highest) pairs x all candidates in range x all prover randomness",
  "The only end-to-end test file does not compile, and it samples two stored ballots of one configuration; no test casts a ballot.",
  ["voter.go","server.go","elgamal.go","main.go","marshal.go","voteproof/voteproof.go","bulletproofs/bp.go"],
  [("castVote proves choice-lo and hi-choice and links both to the ciphertext","voter.go"),("verifyVote shifts both commitments back by lo and hi","server.go")],
  ["verdict of the collector on a cast ballot","decryption of the cast ciphertext"])
p("C02","An accepted ballot encrypts a candidate number inside the range",
  "Whatever a malicious voter submits, if the vote collector accepts a ballot then its ciphertext is an encryption, under the election public key, of a candidate number between the lowest and the highest candidate inclusive, and it is the same number to which both range commitments are bound. In particular ballots built for an out-of-range number, for a number that differs between the ciphertext and the commitments, from one-sided range proofs, or with ciphertext components outside the prime-order subgroup are rejected.",
  ["inputs","configurations"],"all ballots an adversary can build (in the algebraic model: all choices of the transcript's group elements and scalars) x all ranges",
  "Tests contain no adversarial ballot at all: the collector's accept/reject decision has no test.",
  ["server.go","voter.go","voteproof/voteproof.go","bulletproofs/bp.go","bulletproofs/bip.go","group/modsafeprime.go","marshal.go"],
  [("both bulletproofs verified, then the equality proof on the shifted-back commitments","server.go:verifyVote"),("subgroup membership of decoded elements","group/modsafeprime.go")],
  ["collector verdict vs. decrypted plaintext"])
p("C03","A tampered or spliced ballot is rejected",
  "Replacing any single part of an accepted ballot (the ciphertext or either of its components, the lower or upper range proof, the equality proof, or any group element or response value inside them that takes part in verification) by a different value, by the corresponding part of another voter's ballot, or by the part playing the other role (lower for upper) makes the vote collector reject it (scalars count as different when they differ modulo the group order). Recombining parts of several valid ballots is accepted only when the result is itself one of those ballots.",
  ["inputs","histories"],"all parts x all replacement values x all recombinations of the parts of several valid ballots",
  "No test modifies a ballot; a dropped or weakened check is invisible to tests that only verify well-formed data.",
  ["server.go","voteproof/voteproof.go","bulletproofs/bp.go","bulletproofs/bip.go"],
  [("every proof component enters a verification equation or a challenge","voteproof.Verify, BulletProof.Verify, InnerProductProof.Verify")],
  ["collector verdict on spliced ballots"])
p("C04","Verification depends only on the verifier's own parameters",
  "Public parameters carried inside a submitted (serialised) ballot can never turn it into an accepted one: challenge length, abort bounds, range, public key, commitment generators or inner-product generators chosen by the submitter cannot make the collector accept a ballot that is not valid under the election's own parameters (refusing a ballot because of them is allowed). The same holds for a single range proof verified after parsing.",
  ["inputs","configurations"],"all parameter values embedded in a submitted proof",
  "Tests only verify proofs whose embedded parameters are the verifier's.",
  ["server.go","marshal.go","voteproof/marshal.go","voteproof/voteproof.go","bulletproofs/marshal.go","bulletproofs/bp.go","bulletproofs/multibp.go"],
  [("verification takes generators and bounds from the election setup","server.go, bulletproofs/bp.go")],
  ["verdict on ballots whose embedded parameters were replaced"])
p("C05","Range proofs are complete and commit to the proven value",
  "For every supported group, every supported range [0, 2^n) with n in {1,2,4,8,16,32} and every value in the range, the prover returns a range proof that verifies, directly and after serialisation, and the commitment in the proof is the Pedersen commitment to exactly that value under the returned randomness. All proof components are the ones the Bulletproofs protocol prescribes for the committed bits and the derived challenges.",
  ["inputs","configurations"],"all n x all values x all prover randomness x all groups",
  "Tests prove two in-range values (0 and 3) for n=32 on one group and look only at the verdict.",
  ["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/util.go","bulletproofs/vector.go","util/util.go"],
  [("prover phases (41)-(62) and the inner-product recursion","bulletproofs/bp.go, bulletproofs/bip.go")],
  ["proof components and verdict"])
p("C06","A range proof is accepted only if all verification relations hold",
  "The range-proof verifier accepts a transcript if and only if the polynomial-commitment relation, the vector-commitment relation, the inner-product argument, the equality of the claimed evaluation with the proven inner product, and the expected number of recursion rounds all hold for the verifier's generators. Hence no proof for a committed value outside [0, 2^n) that an honest-but-out-of-range prover or a prover cheating in any single relation builds is accepted.",
  ["inputs","configurations"],"all transcripts (group elements and scalars), all n",
  "Tests try three out-of-range values with the honest prover; each single relation can be dropped or altered without any test noticing.",
  ["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/util.go"],
  [("conditions (65), (66)/(67), inner product proof, link between them","bulletproofs/bp.go:Verify")],
  ["verdict and the group equations the verifier evaluates"])
p("C07","The inner-product argument accepts exactly the true statements",
  "For every power-of-two length and all vectors a, b over the scalar field (negative and unreduced entries included), the inner-product prover's proof verifies for the commitment to a and b and the value <a,b>. The verifier's acceptance condition is exactly the folded Bulletproofs relation over the statement's generators, so a proof for a wrong inner product, a wrong commitment or altered rounds is rejected.",
  ["inputs","configurations"],"all vector lengths 1,2,4,...,32, all vectors, all transcripts",
  "One test with one fixed vector pair of length 4, positive verdict only.",
  ["bulletproofs/bip.go","bulletproofs/util.go","bulletproofs/vector.go"],
  [("recursive halving and folded verification","bulletproofs/bip.go")],
  ["IP proof components, verdict, verification equation"])
p("C08","Aggregated range proofs are complete and sound",
  "For every list of m values, m dividing the total bit length, an aggregated range proof verifies whenever every value fits in its share of the bits, and its commitments open to the values under the returned randomness. If any value is out of its share, or any component is altered or two commitments are exchanged, verification fails.",
  ["inputs","configurations"],"all m, all value lists, all transcripts",
  "The only test of aggregation fails at the pinned commit; no negative test exists.",
  ["bulletproofs/multibp.go","bulletproofs/bip.go"],
  [("aggregated relations with z-power weights","bulletproofs/multibp.go")],
  ["aggregated proof components, verdict, verification equation"])
p("C09","The cross-group equality proof is complete and sound",
  "An equality proof produced for a secret and randomness verifies against the ElGamal ciphertext and the two commitments built from that secret and randomness. The verifier accepts if and only if the response lies in its window, the challenge is the one derived from the transcript, and all four group relations (both ciphertext components and both commitments) hold, so a proof with different secrets in any of the three places is rejected.",
  ["inputs","configurations"],"all secrets, randomness, group pairs and transcripts",
  "The package has no test files.",
  ["voteproof/voteproof.go"],
  [("sigma protocol with abort over two groups","voteproof/voteproof.go:Prove, Verify")],
  ["proof components, verdict, the relations evaluated"])
p("C10","Equality-proof responses stay in the no-leak window",
  "Every published equality proof carries a response inside [2^(secret bits + challenge bits), 2^(secret bits + challenge bits + abort bits)), attempts outside the window are never published, and the verifier rejects any response outside it, for every parameter choice setup accepts. Within the window responses are masked by a full-range one-time value: every part of the window occurs, independently of the secret. The prover tries again with a fresh mask until a response falls inside, so it always comes to an end.",
  ["inputs","configurations","histories"],"all parameter choices, all secrets, all prover randomness, all responses",
  "No test of the package; the window is hit or missed with probability 2^-15 with production parameters.",
  ["voteproof/voteproof.go"],
  [("abort loop and range check on z","voteproof/voteproof.go")],
  ["published responses; verdict on out-of-window responses"])
p("C11","Every challenge is bound to the statement and everything sent before it",
  "Each Fiat-Shamir challenge recomputed by a verifier changes whenever any part of the statement being proven (the committed values of a range proof; the ciphertext and commitments of an equality proof; generators, commitment and claimed product of an inner-product argument) or any group element sent earlier in the same proof changes, and challenges that the protocol requires to be independent are derived independently, so their values differ; every challenge ranges over its whole space, none of its bits being fixed. Prover and verifier derive the same challenges, and a proof carrying a challenge different from the derived one is rejected.",
  ["inputs"],"all transcripts and all single-component changes",
  "Tests never look at a challenge; a challenge that ignores a component still verifies for honest proofs.",
  ["bulletproofs/util.go","bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/multibp.go","voteproof/voteproof.go"],
  [("hash transcripts","HashBP, hashIP, getFSChallenge")],
  ["challenge values recovered from the verifier's group equations"])
p("C12","Setup yields independent generators and rejects unusable parameters",
  "Range-proof setup succeeds exactly for the documented ranges (upper end 2^n, n a power of two, n <= 32) and returns an error, not a panic or an unusable result, for every other integer; its generators are deterministic, pairwise distinct, different from the base point and the identity, and are the hash-to-group images of distinct public seeds. Equality-proof setup succeeds only with at least one abort bit, a challenge length that is a whole number of bytes the hash can supply, and a non-empty range that fits the secret length; with every setup it accepts, proving and verifying work.",
  ["inputs","configurations","histories"],"all integers as range end, all groups, all orders of calls, all size parameters",
  "Tests call setup with 2^32 only and never inspect the generators.",
  ["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/util.go","voteproof/voteproof.go","group/p256.go","group/p384.go","group/p256k1.go","group/ristretto255.go"],
  [("Setup, MapToGroup with seeds","bulletproofs/bp.go, group/*.go")],
  ["returned parameters and errors"])
p("C13","Every group implementation obeys the prime-order group laws",
  "For every group implementation and every sequence of element operations (add, subtract, negate, scale, base-scale, set, map, decode), including receivers aliasing operands and scalars that are zero, negative or larger than the order, each element has the value the abstract group prescribes, only the receiver changes, equality and identity tests agree with the abstract values, equal elements have equal string forms and different elements have different string forms. No operation on one element changes any other element or the group's constants. Random yields members drawn anew over the whole group.",
  ["inputs","histories"],"all operation sequences, alias patterns and scalars, all five group implementations",
  "Tests sample x-x and -1*x on random elements; aliasing, zero, identity operands, large scalars and most operations of secp256k1 are never tried.",
  ["group/group.go","group/modsafeprime.go","group/p256.go","group/p384.go","group/p256k1.go","group/ristretto255.go"],
  [("Element methods","group/*.go")],
  ["values of all live elements after each operation"],
  [dict(name="registers",meaning="abstract exponent vectors of all live elements",where="group/*.go val fields")])
p("C14","Element encodings round-trip and reject non-members",
  "For every group, decoding (UnmarshalBinary, UnmarshalJSON) the binary or JSON encoding of any element, the identity and elements with leading-zero coordinates included, yields an equal element. Bytes or JSON that do not encode an element of the group (off-curve or out-of-subgroup values, out-of-range or negative coordinates, missing fields, wrong lengths or types) are rejected with an error, never with a panic or by silently producing some other element.",
  ["inputs"],"all elements and all byte/JSON strings per group",
  "Tests round-trip random elements of three groups; the fourth panics, the fifth is not tested, and no invalid encoding is tried.",
  ["group/modsafeprime.go","group/p256.go","group/p384.go","group/p256k1.go","group/ristretto255.go","group/types.go"],
  [("MarshalBinary/UnmarshalBinary/MarshalJSON/UnmarshalJSON","group/*.go")],
  ["decoded element or error"])
p("C15","Proof and ballot JSON round-trips; malformed input is rejected safely",
  "Serialising any range proof, equality proof or ballot to JSON and parsing it with the matching public parameters yields an object with equal components and the same verdict. Parsing and verifying any malformed document (components that take part in verification missing, null or mistyped, lists of proof rounds truncated or lengthened, elements outside the group, invalid JSON) ends with an error or a negative verdict, never with a panic and never with acceptance.",
  ["inputs"],"all proofs and ballots; all JSON documents obtained by damaging one component",
  "One test round-trips one range proof on one curve and checks only the verdict; no malformed document is tried.",
  ["marshal.go","voteproof/marshal.go","bulletproofs/marshal.go","server.go"],
  [("UnmarshalJSON functions","marshal.go, voteproof/marshal.go, bulletproofs/marshal.go")],
  ["parsed object, error, verdict"])
p("C16","Proofs and ciphertexts hide the secret with fresh full-range randomness",
  "In every range proof, aggregated proof, equality proof and ciphertext each hiding commitment carries its own blinding value drawn anew from the full scalar range: blinding values are never zero by construction, never reused within or across proofs or ballots, and every revealed response is masked by such a value. The published parts are therefore distributed independently of the candidate.",
  ["inputs","histories"],"all sequences of proofs and ballots, all secrets",
  "No test looks at blinding; an unblinded proof verifies just as well.",
  ["bulletproofs/bp.go","bulletproofs/multibp.go","voteproof/voteproof.go","elgamal.go","voter.go"],
  [("rand.Int for every blinding value","Prove, MultiProve, encryptVote")],
  ["blinding coordinates of all published elements"])
p("C17","Proving and verifying have no side effects and are concurrency-safe",
  "Verifying a proof or ballot never changes it or any shared parameters, proving never changes the parameters or its inputs, and verdicts do not depend on what was proven or verified before, in which group, or concurrently. Any interleaving of setups, provers and verifiers that share parameters gives the same verdicts as running each alone.",
  ["schedules","histories"],"all histories and interleavings of setup/prove/verify/parse calls sharing parameters",
  "Tests run each operation once, sequentially, on fresh parameters.",
  ["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/multibp.go","voteproof/voteproof.go","server.go","voter.go","group/*.go"],
  [("operations allocate fresh elements instead of updating shared ones","bulletproofs/*.go")],
  ["fingerprints of parameters, proofs and inputs before/after each call; verdicts"])
p("C18","Ballot encryption is correct lifted ElGamal",
  "For every candidate number and public key, encryption yields the pair (g^r, g^choice * pk^r) for the returned randomness r with 1 <= r < group order, so decryption with the private key recovers exactly g^choice. Component-wise combination of ciphertexts decrypts to the sum of the candidate numbers.",
  ["inputs","configurations"],"all 16-bit choices, all keys, all groups usable for encryption",
  "Encryption has no test.",
  ["elgamal.go","main.go"],
  [("encryptVote","elgamal.go")],
  ["ciphertext components and returned randomness"])
p("C19","Scalar, vector and commitment arithmetic is exact",
  "The vector and scalar helpers (component-wise add, subtract, multiply, scalar multiply, constant add, inner products, powers, multi-exponentiation, element-wise group addition, base decomposition, Pedersen commitment) return the mathematically exact result reduced modulo the given modulus for all inputs, negative and unreduced ones included, and leave their inputs unchanged. Vectors of different lengths are reported as an error wherever an error can be returned.",
  ["inputs"],"all vectors, lengths, moduli",
  "Each helper is tested on one small positive vector.",
  ["bulletproofs/vector.go","bulletproofs/util.go","util/util.go"],
  [("Vector*, ScalarProduct, powerOf, VectorExp, Decompose, PedersenCommit","bulletproofs/vector.go, bulletproofs/util.go, util/util.go")],
  ["returned values and errors"])
p("C20","The election's default setup is coherent for every group",
  "For every curve group no larger than the ElGamal group, the election's setup either refuses the group with an error or yields public parameters whose parts fit together: the descriptions of both groups (generator, order, field size, implementation), in the parameters and in their copy inside the equality proof's parameters, are those of the groups themselves; the ElGamal group is the whole prime-order subgroup modulo a safe prime and the public key a non-identity member of it; the range proofs are over the curve group asked for and their blinding generator is the equality proof's; the candidate range is the same everywhere, not empty, fits the secret length, and fits the range proofs without wrapping around the order; Bg is the length of the curve order and Bb = Bg-1-Bx-Bc is at least 1. The secret and challenge lengths are the same for every group, and exactly the groups whose order leaves no room for them are refused. Setup is deterministic and does not depend on earlier setups.",
  ["configurations"],"all curve groups, real ones and ones with orders of any length, and histories of setups",
  "One test casts a ballot per curve; nothing looks at the parameters, no short order is tried, and the second half of the descriptions is never read by a test.",
  ["main.go","voteproof/voteproof.go","bulletproofs/bp.go"],
  [("setup","main.go"),("Setup","voteproof/voteproof.go")],
  ["every field of the public parameters, or the error"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
