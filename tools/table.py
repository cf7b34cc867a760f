NOTE = ("Trusted: the verifier in gover/, go/ssa, z3 and cvc5, and the models of kyber, the standard library and onet listed in the evidence; "
        "group arithmetic is exact algebra over the prime-order group, machine integers are mathematical integers with slices shorter than 2^31.")
LIB = "lib/crypto.go"

def P(id, title, statement, over, quant, tests, files, mech, note="", na=None, thms=None):
    d = dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech, note=note)
    if na: d["na"] = na
    if thms: d["thms"] = thms
    PROPS.append(d)

PROPS = []

P("C01", "Encryptions open to exactly what was encrypted",
  "For every key pair, encrypting an integer, a scalar, or a vector of them (with or without returning the randomness) gives ciphertexts of the same number that open, under the private key, to exactly the encoded plaintext position by position, and any randomness returned is the one that was used. Every ciphertext made has fresh randomness of its own, shared with no other ciphertext of the vector. Null vectors, embedded clear values and fresh ciphertexts open to what they claim, generated key pairs match, and the zero test answers zero exactly for encryptions of zero.",
  ["inputs", "schedules"], "every key, plaintext, vector length (including lengths that are not a multiple of the parallel chunk size), fresh randomness and goroutine schedule",
  "Tests encrypt a handful of short vectors; wrong results at a chunk boundary, at a particular length, for negative values or under a particular schedule escape them.",
  [LIB], [("ElGamal encryption", "lib/crypto.go encryptPoint, EncryptInt, EncryptScalar"), ("chunked parallel vectors", "lib/crypto.go EncryptIntVector, EncryptIntVectorGetRs, EncryptScalarVector, NullCipherVector")],
  "Proved for all inputs, lengths and goroutine schedules (race-freedom and joining are obligations too).")

P("C02", "Ciphertext addition, subtraction, scaling and summing are exact",
  "Adding, subtracting and scaling ciphertexts, adding and subtracting ciphertext vectors, and summing a vector act on both ciphertext components at every position, including when a result overwrites one of its operands; equality of ciphertexts and vectors holds exactly when all components agree. Hence decryption commutes with these operations.",
  ["inputs", "schedules"], "every operand, every vector length, every aliasing of receiver and operand, every goroutine schedule",
  "Tests add a few short vectors with distinct receivers; chunk boundaries, aliasing and one-component slips are only sampled.",
  [LIB], [("componentwise group operations", "lib/crypto.go CipherText.Add, Sub, MulCipherTextbyScalar"), ("chunked vectors", "lib/crypto.go CipherVector.Add, Sub, Acum, Equal")],
  "Proved for all inputs, lengths and schedules; receivers of vector operations are required to have the operands' length.")

P("C03", "Decryption returns the integer that was encrypted, whatever was decrypted before",
  "Every integer in the supported range (non-negative for the plain decryption, of either sign for the one with negative values, below the documented bound in absolute value) decrypts to itself, alone or at any position of a vector, whatever integers were decrypted before and in whatever order, by whichever of the decryption functions, and with the decryption table empty, partly filled or filled ahead.",
  ["inputs", "histories"], "every key, every integer in the range and every history of decryptions",
  "Tests decrypt a few small integers in one order; the result depends on a table grown by earlier decryptions, so a wrong entry needs a particular history.",
  [LIB], [("search with a growing table", "lib/crypto.go DecryptInt, DecryptIntWithNeg, discreteLog"), ("vectors and filling ahead", "lib/crypto.go DecryptIntVector, DecryptIntVectorWithNeg, CreateDecryptionTable")],
  "Proved from an arbitrary table reached by decryptions, which each decryption is proved to keep; vectors are proved against the contract of the single decryption.")

P("C04", "Shares of a split secret add up to it and leave it unchanged",
  "Splitting a scalar into shares returns the requested number of shares plus one, the requested ones random and independent of each other, whose sum is exactly the scalar, and the scalar that was split keeps its value.",
  ["inputs"], "every scalar, every number of shares, every random draw",
  "The test checks one sum, computed from the already overwritten scalar.",
  [LIB], [("secret splitting", "lib/crypto.go SplitScalar")])

P("C09", "Random permutations are bijections of their index set",
  "A random permutation of n indices has length n, contains only indices in range and never repeats one, whatever the random draws; random scalar vectors have the requested length and each element is drawn on its own.",
  ["inputs"], "every n and every outcome of the random source",
  "A test can look at a few samples only; a bijection slip (bad range of a draw, off-by-one) needs particular draws.",
  [LIB], [("Fisher-Yates shuffle", "lib/crypto.go RandomPermutation"), ("", "lib/crypto.go RandomScalarSlice")])

P("C13", "Ciphertexts, vectors, points and scalars survive serialization",
  "Encoding a ciphertext, a ciphertext vector, an array of vectors, a point list, a point or a scalar succeeds, has the documented size, and decoding what was encoded gives the same value; decoding reports an error exactly when some component does not decode.",
  ["inputs"], "every value and every length, including empty ones",
  "Tests round-trip a few fixed values; lengths, offsets and error paths are only sampled.",
  [LIB], [("byte encodings", "lib/crypto.go CipherText.ToBytes/FromBytes, CipherVector.ToBytes/FromBytes, ArrayCipherVectorToBytes, AbstractPointsToBytes"), ("text encodings", "lib/crypto.go Serialize, SerializePoint, SerializeScalar")],
  "Point and scalar marshalling of the crypto library is assumed injective, of fixed length and inverted by unmarshalling.")

KS, KSP = "lib/key_switch/key_switch.go", "lib/key_switch/key_switch_proofs.go"
SH, SHP = "lib/shuffle/shuffle.go", "lib/shuffle/shuffle_proofs.go"
DT, DTP = "lib/deterministic_tag/deterministic_tag.go", "lib/deterministic_tag/deterministic_tag_proofs.go"
AR, AG = "lib/add_rm/add_rm_proofs.go", "lib/aggregation/aggregation_proofs.go"

P("C06", "Key switching by any number of servers preserves the plaintexts",
  "Each server's key switching step gives, at every position, the pair (v.B, v.Q - x.rB) for a fresh v of its own, together with the values its proof is about. Whatever the number of servers and the vector length, adding all the servers' contributions to ciphertexts encrypted under the servers' collective key gives ciphertexts that open to the same plaintexts under the target key.",
  ["inputs"], "every number of servers, vector length, server secret, target key and fresh randomness",
  "Tests run one or a few servers on short vectors; a wrong sign or mixed-up index that cancels for those keys, or one that depends on the number of servers, is only sampled.",
  [KS], [("one server's contribution", "lib/key_switch/key_switch.go KeySwitchSequence, KeySwitch"), ("collecting contributions", "lib/crypto.go CipherVector.Add")],
  "Proved by induction over the servers for any number of them.")

P("C07", "Deterministic tags depend exactly on the plaintext",
  "One server's tagging step maps every ciphertext of a vector to one that opens, under the secret of the servers still to come, to the server's secret times what the ciphertext opened to before. Hence after any sequence of servers equal plaintexts have equal tags and, for secrets other than zero, different plaintexts different ones, whatever the randomness. The grouping key computed from a vector is exactly the key of the tags of its elements, in order.",
  ["inputs"], "every vector, key, secret contribution and any number of servers in any order",
  "Tests tag a few values with two or three servers.",
  [DT], [("tagging step", "lib/deterministic_tag/deterministic_tag.go DeterministicTagSequence, DeterministicTag"), ("grouping key", "lib/deterministic_tag/deterministic_tag.go CipherVectorToDeterministicTag")],
  "The step is proved for a generic server; the product over a sequence of servers is the induction stated with it.")

P("C08", "Shuffling permutes and re-randomises, and its proofs say so",
  "Shuffling a list of vectors returns, for a permutation and re-encryption factors that are returned with it, exactly the permuted input with every element re-encrypted by its own factor - drawn afresh for each element, or taken together with its precomputed points from a precomputed row - so every output vector opens to the plaintexts of the input vector it comes from. Precomputed rows hold the multiples of both keys by their scalars and survive encoding. A proof made for an honest shuffle is accepted, holds the lists and keys it was made for and survives encoding; in a list each proof is about its own shuffle, and verifying a list checks the requested share of it. Any accepted proof, whoever made it, is about two lists of the same shape whose compressions with the factors derived from the seed and the original list are related by a permutation and a re-encryption under the published keys; malformed proofs are rejected.",
  ["inputs", "schedules"], "every list of vectors of one width, key, precomputation, permutation, random draw, proof and goroutine schedule",
  "Tests shuffle a few short vectors and check one proof; an output taken from the wrong row, a factor used twice or an unchecked length needs particular sizes, draws or proofs.",
  [SH, SHP, "lib/shuffle/structs.go"], [("shuffle and precomputation", "lib/shuffle/shuffle.go ShuffleSequence, shuffle, rerandomize, CreatePrecomputedRandomize; lib/shuffle/structs.go"), ("proofs", "lib/shuffle/shuffle_proofs.go ShuffleProofCreation, ShuffleProofVerification and their list versions, compress*, CipherVectorComputeE, ToBytes/FromBytes")],
  "The pair-shuffle proof of the library is modelled: a transcript made for a related pair verifies exactly for it, and an accepted one implies a permutation and factors (soundness of Neff's shuffle, assumed). Soundness is stated for the compressed lists, which is what the code proves.")

P("C10", "Proofs of correctly done work are accepted",
  "Proofs created for honestly computed key switching, tagging, secret addition, adding or removing a server and aggregation are created without error, one per element in order and about that element, and are accepted by the verification whatever the share of them that is checked. An aggregation proof is accepted exactly when the result is the sum of the data.",
  ["inputs", "schedules"], "every honest computation: keys, secrets, vectors, list lengths, verification percentages and goroutine schedules",
  "Tests make proofs for a few elements with one percentage; chunk boundaries, element mix-ups and point representations escape them.",
  [KSP, DTP, AR, AG], [("key switching proofs", "lib/key_switch/key_switch_proofs.go"), ("tagging and addition proofs", "lib/deterministic_tag/deterministic_tag_proofs.go"), ("add/remove proofs", "lib/add_rm/add_rm_proofs.go"), ("aggregation proofs", "lib/aggregation/aggregation_proofs.go")],
  "The sigma-protocol library is modelled: a transcript made with a witness of the predicate verifies exactly for the statement it was made for.")

P("C11", "No proof of a false statement is accepted",
  "If verification accepts a key switching, tagging, addition, add/remove or aggregation proof - even one replayed from another statement or not made by the code at all - then the published values satisfy the relation the proof stands for: both components of the switched, tagged or re-keyed ciphertext, or the sum.",
  ["inputs"], "every published statement and every transcript, honest, replayed or forged",
  "Tests try one wrong value per proof type; an unbound component or a dropped check accepts others.",
  [KSP, DTP, AR, AG], [("verification of single proofs", "KeySwitchProofVerification, DeterministicTagCrProofVerification, DeterministicTagAdditionProofVerification, AddRmProofVerification, AggregationProofVerification")],
  "Assumed: an accepted transcript implies a witness for its predicate (knowledge soundness of the library's Fiat-Shamir proofs).")

P("C12", "Verifying a list checks exactly the requested share of it",
  "Verifying a list of key switching, tagging, addition, add/remove or aggregation proofs with a share p between 0 and 1 accepts exactly when each of the first ceil(p*n) proofs is accepted, for every length n and without panicking; with p = 1 that is all of them.",
  ["inputs", "schedules"], "every list, length and percentage, every goroutine schedule",
  "Tests verify short lists that are all valid, or one short all-invalid list; skipped elements at chunk boundaries need particular lengths and positions.",
  [KSP, DTP, AR, AG], [("chunked parallel verification", "KeySwitchListProofVerification, DeterministicTagCrListProofVerification, DeterministicTagAdditionListProofVerification, AddRmListProofVerification, AggregationListProofVerification")])

P("C20", "Adding and removing a server's key re-encrypts and is undone by its inverse",
  "Adding (removing) a server's key turns, position by position, ciphertexts under secret x into ciphertexts of the same plaintexts under x+k (x-k) and keeps their randomness; doing one and then the other gives back the very same ciphertexts, and the result passes the add/remove proofs.",
  ["inputs"], "every ciphertext vector, server key and direction",
  "Tests add or remove one key on a few ciphertexts.",
  ["protocols/utils/addrm_server_protocol.go"], [("change of encryption", "protocols/utils/addrm_server_protocol.go changeEncryption, changeEncryptionKeyCipherTexts")])

ST, SS = "lib/store/store.go", "lib/structs.go"

P("C14", "Responses survive encoding between servers and data providers",
  "Encoding a filtered response, one with its tag, a process response or one with its tags, and decoding it with the lengths the encoder returned gives the same response, tags included. What a data provider encrypts and sends arrives with all its columns: clear ones unchanged and encrypted ones opening to the provider's values, plus a count of one when counting was asked for, and nothing else.",
  ["inputs"], "every response, column name, number of columns (including none) and key",
  "Tests encode a few fixed responses; offsets and lengths of unequal or empty parts are only sampled.",
  [SS], [("response encodings", "lib/structs.go FilteredResponse, FilteredResponseDet, ProcessResponse, ProcessResponseDet ToBytes/FromBytes"), ("data provider responses", "lib/structs.go EncryptDpClearResponse, FromDpResponseToSend, EncryptMap")],
  "Where tags are required to be non-empty and free of the separator character, as deterministic tags are.")

P("C16", "Aggregation adds up exactly the responses of each group",
  "Grouping by tag or by clear values, locally or over the servers, gives one result for every group that occurs and no others, and its attributes are the sums of the attributes of all the responses of that group and of no other; adding to one group leaves every other group as it was. The key computed from clear values determines them, and a vector's key is determined by it.",
  ["inputs", "histories"], "every list of responses, any number of groups and attributes, any assignment of responses to groups and order of arrival",
  "Tests aggregate a few responses in two or three groups.",
  [SS, ST], [("adding to a group", "lib/structs.go AddInMap, Key"), ("local and collective aggregation", "lib/store/store.go PushDeterministicFilteredResponses, PushCothorityAggregatedFilteredResponses, InsertDpResponse")],
  "Responses aggregated together are required to have the same number of attributes; attributes added to an existing clear group are those of the query.")

P("C17", "Stored responses come out exactly once and as they went in",
  "Responses inserted in the store are pulled exactly once, all of them, in order where they are a list, with the columns in the order the query asks for, and are not changed by what is inserted afterwards, also when insertions run concurrently; the store reports a next response exactly when there is one. With differential privacy exactly the given noise is added to each aggregate of the results and to nothing else.",
  ["inputs", "histories", "schedules"], "every list of responses, query, noise value, order of insertions and pulls, and every schedule of concurrent insertions",
  "Tests insert and pull a few responses once.",
  [ST], [("store", "lib/store/store.go InsertDpResponse, PullDpResponses, HasNextDpResponse, PushShuffledProcessResponses, PullShuffledProcessResponses, PushQuerierKeyEncryptedResponses, PullDeliverableResults, PullCothorityAggregatedFilteredResponses")])

PR = "protocols/"

P("C15", "Messages between servers survive their encodings",
  "Every message the protocols exchange decodes, on the server that receives it, to what was encoded by the one that sent it: the data to shuffle with the lengths of its vectors, the data to shuffle and tag together with the key that is left for it, the ciphertexts being tagged, the key-switching contributions with their number, and the aggregates of the groups with their tags, whatever the numbers of elements and of attributes (none included).",
  ["inputs"], "every message, number of elements, length of vectors, tag and key",
  "Tests run each protocol on one or two fixed data sets.",
  [PR+"collective_aggregation_protocol.go", PR+"deterministic_tagging_protocol.go", PR+"shuffling_protocol.go", PR+"shuffling+ddt_protocol.go", PR+"key_switching_protocol.go", "lib/crypto.go"],
  [("messages", "protocols/*.go ToBytes, FromBytes of ChildAggregatedDataMessage, DeterministicTaggingMessage, ShufflingMessage, ShufflingPlusDDTMessage"), ("vectors and lengths", "lib/crypto.go ArrayCipherVectorToBytes, FromBytesToArrayCipherVector; lib/tools/tools.go UnsafeCastIntsToBytes, UnsafeCastBytesToInts")],
  "The groups of one aggregation message are required to be of the same shape (numbers of grouping attributes and of values, length of tag), because one triple of lengths describes them all; a group without attributes and tag is not representable.")

P("C19", "Converting responses between protocols loses nothing",
  "Responses turned into the form a protocol works on and back are the same responses: lists of ciphertexts per filtered response, the matrix that is shuffled (where a single response gets exactly one companion with the same attributes whose values encrypt nothing, so that it changes no sum), vectors with one ciphertext each, and deterministic tags, which get back to the response and attribute they were computed for and combine to the key of its group. Data without groups is what an aggregate holds under the empty key when that is its only key, and an error otherwise.",
  ["inputs"], "every list of responses with any numbers of attributes, and every map of results",
  "Tests convert lists of two or three responses.",
  [PR+"tools_protocol.go"], [("conversions", "protocols/tools_protocol.go")])

TURN = " One server's turn is decided: its message has arrived, sending succeeds, and nothing is said about the network, timeouts or the order of turns (messages of children are paired by the order of arrival, as the code does)."

P("C21", "A server's turn in deterministic tagging",
  "In the deterministic tagging protocol the root sends out exactly the ciphertexts it was given; then every server, once, adds its secret (times the base point) to each ciphertext of the first round and leaves its randomness part alone, and, in the second round, removes its private key's share from each ciphertext and multiplies what remains, and the randomness part, by its secret. Each server sends both results to the next server in the circuit, in order and complete; the root instead ends the second round by giving one tag per ciphertext it started with, at the same position.",
  ["inputs"], "every node, key, secret and list of ciphertexts of any length, with or without proofs",
  "Tests run the protocol on a few values in a fixed tree and compare the tags of equal values; an error that depends on the length, the position or the place in the circuit escapes them.",
  [PR+"deterministic_tagging_protocol.go", "lib/deterministic_tag/deterministic_tagging.go"], [("protocol", "protocols/deterministic_tagging_protocol.go Start, Dispatch, TaggingDet and the message conversions")],
  TURN.strip())

P("C22", "A server's turn in key switching",
  "In the key switching protocol the root sends the new public key and the randomness parts of the ciphertexts down the tree; every server passes that message on unchanged and sends its parent, for each ciphertext, an encryption under the new key of minus the sum of the private keys of the servers of its subtree times the ciphertext's randomness part, together with their number. If those keys add up to the key the ciphertexts were made for, what the root hands out opens under the new key to what the original ciphertexts contain, position by position. The proofs of a server's contribution are about that contribution and are accepted.",
  ["inputs"], "every node, tree position, number of children, key and list of ciphertexts of any length",
  "Tests run one tree on a few values.",
  [PR+"key_switching_protocol.go", "lib/key_switch/key_switching.go"], [("protocol", "protocols/key_switching_protocol.go Start, Dispatch, announcementKSPhase, ascendingKSPhase")],
  "Contracts Tree and Root compose over the tree: what a server may assume of its children is what they guarantee to their parent." + TURN)

P("C23", "A server's turn in shuffling",
  "In the shuffling protocol the root shuffles the responses it was given and every other server those it receives: what a server sends to the next one in the circuit is what came in, permuted by one permutation and re-randomised under the collective key, every value of every response, so that the plaintexts are the same up to the order of the responses. The permutation and the randomness handed to the proof function are the ones used, and the proof made from them is about the lists received and sent and is accepted. The root ends the protocol by handing out, unchanged, what comes back to it. The protocol that shuffles and tags in one round is started with exactly the data given and the collective key.",
  ["inputs", "randomness"], "every node, collective key, number of responses and of values per response, permutation and randomness",
  "Tests run one tree on a few responses and compare sums.",
  [PR+"shuffling_protocol.go", PR+"shuffling+ddt_protocol.go", "lib/shuffle/shuffle.go"], [("protocol", "protocols/shuffling_protocol.go Start, Dispatch"), ("combined protocol", "protocols/shuffling+ddt_protocol.go Start")],
  "Responses of one round have the same number of values. The later turns of the combined protocol (shuffling+ddt_protocol.go Dispatch) are not covered." + TURN)

P("C24", "A server's turn in collective aggregation",
  "In the collective aggregation protocol a leaf tells its parent exactly its own groups with their grouping attributes and values. At the root the result has exactly the groups of the root and of its children; the values of each group are the sums, position by position, of those of the root and of all children that have the group (in both components of the ciphertexts), and the grouping attributes of the root's own groups are unchanged. A server between the root and the leaves announces to its children and tells its parent exactly the groups of its own and of its children's answers, with the sums taken in the same way.",
  ["inputs"], "every map of groups, number of children, number of groups per child, tag, number of attributes",
  "Tests aggregate a few fixed groups over one tree.",
  [PR+"collective_aggregation_protocol.go"], [("protocol", "protocols/collective_aggregation_protocol.go Dispatch, ascendingAggregationPhase")],
  "Groups have the same numbers of grouping attributes and of values and tags of the same length, and the children have the same number of groups, at least one; data given without groups and proofs are not covered." + TURN)
