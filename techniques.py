TECH.update({
 "C01": "property-based testing (rapid): generated tables and sets, write-and-parse round trip against a reference model",
 "C02": "property-based testing (rapid): metamorphic relation over generated layouts of a generated document; single-damage injection with an error oracle",
 "C03": "fuzzing (rapid generators): mutated, spliced and token-soup documents; totality, validity and re-parse invariants",
 "C04": "property-based testing (rapid): generated literals of every type and spelling, differential against math/big, strconv and time",
 "C05": "property-based testing (rapid): JSON round trip against a reference model, output judged by encoding/json",
 "C06": "property-based testing (rapid): YAML round trip against a reference model, output judged by yaml.v3",
 "C07": "property-based testing (rapid): Gob round trip against a reference model",
 "C08": "fuzzing (rapid generators): byte mutation, tree mutation and structural damage of JSON, YAML and Gob documents; validity invariant and error oracle",
 "C09": "property-based testing (rapid): generated tables and key sequences, order and permutation oracle by reference comparison",
 "C10": "property-based testing (rapid): differential of binary search against a linear scan of a reference model",
 "C11": "stateful model-based testing (rapid): generated operation histories with valid and invalid arguments against a list-of-rows model",
 "C12": "property-based testing (rapid): every accessor paired with every column type, type-match oracle and reference model",
 "C13": "property-based testing (rapid): twins and single differences, metamorphic equality oracle with a reference model",
 "C14": "stateful property-based testing (rapid): copy, edit one side, compare the other with its model",
 "C15": "stateful model-based testing (rapid): operation histories on a set against an ordered-register model",
 "C16": "property-based testing (rapid): generated permutations and invalid requests against a reference model",
 "C17": "property-based testing (rapid): generated pairs of tables, differential against a reference join",
 "C18": "property-based testing (rapid): permutation, involution and slice oracles against a reference model",
 "C19": "property-based testing (rapid): generated nestings with and without cycles, reference traversal and graph oracle",
 "C20": "property-based testing (rapid): round trip through encoding/csv and a reference decoding of each field",
 "C21": "property-based testing (rapid): generated tables; the generated Go is type-checked with go/types, compiled and run as a round trip",
 "C22": "property-based testing (rapid): differential of every entry point that takes a name or type against a reference grammar",
 "C23": "property-based testing (rapid): one bad line planted at a generated position; independence of histories and of concurrent parses (race detector)",
 "C24": "property-based testing (rapid): file write-and-read round trip with generated earlier contents",
 "C25": "property-based testing (rapid): generated pairs of tables, differential against a reference grouping",
 "C26": "property-based testing (rapid): the built tools run on generated files and options, differential against the library",
 "C27": "property-based testing (rapid): every query by name and by index against a reference model; every method by reflection on a nil receiver",
 "C28": "stateful model-based testing (rapid): histories of key and column operations against a list of keys",
 "C29": "stateful property-based testing (rapid): generated programs alone, interleaved and in goroutines, differential against the run alone (race detector)",
 "C30": "property-based testing (rapid): exact arithmetic, generated pipe contents and timings through a child process, generated call stacks and flags",
 "C31": "property-based testing (rapid): generated tables and sets; invariants of the layout of their text, and metamorphic comparison of padded and unpadded text",
 "C32": "stateful property-based testing (rapid): histories of any method, found by reflection, with generated arguments; invariants over the history (snapshots of every table before and after each call)",
 "C33": "property-based testing (rapid): generated questions, by any method found by reflection, of shared tables in goroutines; differential against the answer alone, under the race detector",
 "C34": "stateful property-based testing (rapid): the same generated history of requests, of any method found by reflection, run on twins made in different ways; differential",
 "C35": "stateful property-based testing (rapid): generated histories asked of twins in two ways, pairs of methods found by reflection; differential, with every way to read generated and mutated documents",
})
