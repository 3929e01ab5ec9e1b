"""Source of properties.jsonl (run by hand: python3 tools/gen_properties.py)."""
import json, os
S = "src/gaspra/"
def P(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": [S + f if not f.startswith("src/") else f for f in files],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": observe, "hook_needed": hook}}
props = [
P("C01", "A diff rebuilds both versions",
  "For any two sequences of the same kind (text, bytes or a sequence of hashable tokens), reading a diff's unchanged fragments together with the inserted sides of its changes gives exactly the modified sequence, and reading them with the deleted sides gives exactly the original. No fragment and no change is empty, and two neighbouring items are never both unchanged text or both changes. Diffing succeeds whatever the sequences' size and however many changes they have.",
  ["inputs"], "all pairs of sequences over any alphabet, of any length, number and nesting of changes, and kind of token",
  "Seven fixed pairs are diffed by the tests, all shorter than 60 tokens; nothing reaches long inputs, many changes, or odd tokens.",
  ["changesets.py", "suffix_automaton.py"],
  [("recursive split around a longest common run", "changesets.find_changeset"), ("in-order streaming of the split tree", "Changeset.as_diff_stream")],
  ["diff_token_sequences", "find_changeset(...).as_diff_stream"]),
P("C02", "A diff keeps longest common runs as unchanged text",
  "Within any pair of sequences being compared, a diff keeps some longest run of tokens they have in common as one unchanged fragment, and does the same again for what lies before that run and for what lies after it. Hence equal sequences produce no change, and the two sides of a change never have a token in common.",
  ["inputs"], "all pairs of sequences over any alphabet and any kind of hashable token",
  "Tests only check that a diff can be applied, which a diff that rewrites everything would also satisfy; one README example is compared literally.",
  ["changesets.py", "suffix_automaton.py"],
  [("choice of the split run", "suffix_automaton.find_lcs"), ("recursion on prefix and suffix", "changesets.find_changeset")],
  ["diff_token_sequences"]),
P("C03", "Patches apply forward and backward",
  "The forward patch of a change stream turns the original sequence into exactly the modified one, and its reverse patch turns the modified sequence into exactly the original, for every pair of sequences of one kind. A patch consists only of in-range spans of the sequence it applies to and of tokens that are new in the result; spans never overlap and appear in increasing order.",
  ["inputs"], "all pairs of sequences, both directions, all kinds of token sequence",
  "Seven fixed pairs in each direction; the self-containedness of the patch is never checked.",
  ["changesets.py"],
  [("direction stripping", "changesets.strip_forward/strip_reverse"), ("patch application", "changesets.apply/join_changes")],
  ["apply", "apply_forward", "apply_reverse", "strip_forward", "strip_reverse", "old_apply_forward", "old_apply_reverse"]),
P("C04", "Longest common substring of two sequences is correct",
  "The longest-common-substring search returns two in-range positions and a length such that the two sequences carry the same run of that length at those positions, and no longer run is common to both. Each position is the first occurrence of that run in its sequence, and when nothing is in common the answer is positions 0, 0 and length 0.",
  ["inputs"], "all pairs of sequences over any alphabet and kind of hashable token",
  "A handful of strings is tested, and on random strings only self-consistency; maximality needs every pair of substrings.",
  ["suffix_automaton.py", "wrappers.py"],
  [("scan along transitions and suffix links", "suffix_automaton.find_lcs"), ("first end position carried through clones", "suffix_automaton.extend/insert_node")],
  ["gaspra.find_lcs", "suffix_automaton.find_lcs"]),
P("C05", "Substring search returns exactly the occurrences",
  "Searching a sequence for a pattern returns, in increasing order and without repeats, every position at which the pattern occurs and no other position (for the empty pattern, every position including the end). The single-result search returns the first of them, or nothing exactly when there is none.",
  ["inputs"], "all sequences, all patterns (present, absent, empty, longer than the sequence), all kinds of tokens",
  "Tests check presence of substrings of three short strings; completeness and order of all occurrences are checked on eight cases.",
  ["suffix_automaton.py", "wrappers.py"],
  [("match state lookup", "suffix_automaton._find_match_node"), ("occurrences through reverse links", "suffix_automaton.follow_reverse_links")],
  ["gaspra.find_substring", "suffix_automaton.find_substring", "suffix_automaton.find_substring_all"]),
P("C06", "The automaton recognises exactly the substrings and suffixes",
  "The automaton built for a sequence accepts a token sequence by its transitions if and only if it is a substring of that sequence, and enumerating its suffixes yields every suffix, including the empty one, exactly once. This holds whether the automaton is built from text, bytes, a token sequence or a one-shot iterable.",
  ["inputs"], "all sequences short enough to enumerate recursively, over any alphabet",
  "Three fixed strings; the clone cases of the online construction depend on the exact repetition structure of the input.",
  ["suffix_automaton.py"],
  [("online construction with state cloning", "suffix_automaton.extend/insert_node"), ("terminal marking", "suffix_automaton.mark_terminal_nodes")],
  ["suffix_automaton.build + all_suffixes", "build + find_substring"]),
P("C07", "N-way longest common substring is correct",
  "For one or more sequences, the n-way search returns one position per sequence and a length such that every sequence carries the same run of that length at its position, no longer run is common to all of them, and each position is that run's first occurrence in its sequence. With no sequences it returns no positions and no length, and no kind of hashable token (other than the markers themselves) is ever confused with the markers used internally to separate the sequences.",
  ["inputs"], "all finite lists of sequences (including empty ones and duplicates), any alphabet and kind of token",
  "Nine fixed cases with at most three short strings.",
  ["multiple_strings.py", "suffix_automaton.py", "types.py"],
  [("separator tokens", "types.Separator / multiple_strings.concatenate_strings"), ("membership propagation", "multiple_strings.update_shared_strings"), ("position mapping", "multiple_strings.get_string_offsets")],
  ["gaspra.find_lcs_multiple"]),
P("C08", "A merge with an unchanged or agreeing branch is trivial",
  "Merging when one branch equals the common parent yields exactly the other branch as one conflict-free fragment, and merging two equal branches yields exactly that branch as one conflict-free fragment (a single empty fragment when it is empty). This holds for every parent, branch and kind of sequence.",
  ["inputs"], "all (parent, branch) pairs, both branch positions, all kinds of token sequence",
  "About fifteen hand-picked triples of strings shorter than 12 tokens.",
  ["merge.py", "changesets.py"],
  [("copy/change alignment over the parent", "merge.process_fragments"), ("identical change detection", "merge.are_identical_changes"), ("consolidation", "merge.consolidate")],
  ["merge_token_sequence"]),
P("C09", "A merge loses no edit and invents no text",
  "Resolve every conflict of a merge in favour of one branch: the result contains, in order, everything that branch inserted and every parent token both branches kept (and, from the place where one of its edits collided with the other's, also the parent tokens that branch kept, up to the next one both kept), and contains nothing except text one of the branches inserted and parent tokens that branch kept. Outside stretches where edits of the two branches collide, both resolutions hold exactly the parent tokens kept by both branches and the insertions of both, an identical insertion only once.",
  ["inputs"], "all (parent, branch, branch) triples and kinds of token sequence, both resolutions; edits taken from the diffs against the parent",
  "Tests compare ~30 literal outputs; a lost or misattributed insertion needs particular overlaps of copy and change lengths on the two sides.",
  ["merge.py"],
  [("length-aligned splitting of fragments", "merge.copy_change/pending_conflict/ordinary_conflict"), ("composition of insertion and deletion", "merge.compose_changes"), ("tail flush", "merge.flush_remaining")],
  ["merge_token_sequence", "diff_token_sequences"]),
P("C10", "Merges are clean exactly when edits do not collide",
  "If no edit of one branch collides with an edit of the other, the merge has no conflict and applies both sets of edits; two edits collide when they differ and either change a common parent token or start at the same place (unless one only inserts and the other only deletes). If some edits collide, the merge reports a conflict, unless taking either side of the collision gives the very same text.",
  ["inputs"], "all (parent, branch, branch) triples and kinds of token sequence",
  "Tests list ~20 clean and ~15 conflicting triples; adjacency and overlap patterns are combinatorial.",
  ["merge.py"],
  [("conflict detection", "merge.copy_change/change_change/has_composable_changes"), ("conflict carried until both sides copy again", "merge.process_fragments (within_conflict)")],
  ["merge_token_sequence", "diff_token_sequences"]),
P("C11", "Merge does not depend on which branch comes first",
  "Exchanging the two branches of a merge exchanges the two resolutions: resolving in favour of a branch gives the same text whichever position that branch was passed in, and the merge is conflict-free in one order exactly when it is in the other.",
  ["inputs"], "all (parent, branch, branch) triples and kinds of token sequence",
  "No test merges the same triple in both orders, apart from two one-token cases.",
  ["merge.py"],
  [("role of the two stacks", "merge.process_fragments"), ("side assignment in conflicts", "merge.copy_change/flush_remaining")],
  ["merge_token_sequence"]),
P("C12", "Diff and merge depend only on token equality",
  "Diffs and merges depend only on which tokens are equal: computing them on text, on bytes or on tuples or lists of any hashable tokens related by a one-to-one renaming gives the same result up to that renaming, with fragments of text for text, bytes for bytes and token sequences otherwise, and never fails for one kind only. The inputs are left unmodified and repeating a call gives the same result.",
  ["inputs", "histories"], "all inputs and all one-to-one renamings between token kinds (characters, bytes, numbers, falsy values, values with colliding hashes), in any call order",
  "Tests repeat their fixed cases as str, bytes and tuples of ints; they never reach the tail paths that pad one side of a conflict.",
  ["merge.py", "changesets.py", "common.py", "suffix_automaton.py"],
  [("kind-specific joining", "common.get_joiner / changesets.join_changes"), ("padding of conflict sides", "merge.pending_conflict/flush_remaining")],
  ["merge_token_sequence", "diff_token_sequences"]),
P("C13", "Tokenisation is lossless and consistent",
  "For every tokenizer and every text it accepts, decoding what was encoded gives back exactly the same text, and still does after any other texts were encoded with the same tokenizer; decoding any piece of a token sequence gives exactly the corresponding piece of text. Within one tokenizer equal tokens stand for equal text and different tokens for different text, and re-encoding a decoded piece gives the same tokens.",
  ["inputs", "histories"], "all texts (str and bytes, any characters and line endings), all sequences of encode and decode calls on one tokenizer",
  "Seven strings, each encoded alone by a fresh tokenizer and decoded whole.",
  ["tokenizers.py"],
  [("interning dictionary shared across calls", "tokenizers.generic_encode"), ("symbol pattern covers every character", "tokenizers.SYMBOLS"), ("line splitting", "LineTokenizer.encode")],
  ["NullTokenizer", "CharTokenizer", "LineTokenizer", "SymbolTokenizer", "line_encode_strings"],
  [("encoding", "token text to id, grows across calls", "LineTokenizer.bytes_encoding, SymbolTokenizer.encoding")]),
P("C14", "Text-level diff and merge reconstruct text in any call history",
  "The text-level diff gives fragments whose unchanged and inserted parts spell exactly the modified text and whose unchanged and deleted parts spell exactly the original, and the text-level merge gives the token-level merge spelled out as text, with every tokenizer, for text and for bytes. What a call returns does not depend on which calls were made before it.",
  ["inputs", "histories"], "all texts, all tokenizers, all sequences of earlier calls mixing text and bytes",
  "The text-level functions have no test at all; history dependence needs two calls.",
  ["tokenizers.py"],
  [("encode, compare, decode pipeline", "tokenizers.diff/merged/decode_changes"), ("default tokenizer", "tokenizers.diff/merged signatures")],
  ["tokenizers.diff", "tokenizers.merged"]),
P("C15", "Line-oriented diffs are lossless and made of whole lines",
  "Turning a text diff or merge into a line-oriented one keeps, character by character and in order, which text is common and which belongs to each side; the only addition is at most one newline at the very end. Every unchanged piece and every non-empty side of a change ends with a newline, text not highlighted inside a change is the same on both of its sides, and in the consolidated form no two changes are adjacent.",
  ["inputs"], "all text diffs and conflict-bearing merges, with any placement of newlines and blank fragments",
  "to_line_diff and its consolidation have no test at all.",
  ["diff_to_lines.py"],
  [("partial line accumulation", "diff_to_lines.DiffAccumulator"), ("consolidation of adjacent changes", "diff_to_lines.consolidate")],
  ["to_line_diff", "consolidated_line_diff"],
  [("partial_line_into/partial_line_from/finishable/in_conflict", "pending line of each side", "DiffAccumulator")]),
P("C16", "Every stored version is retrieved exactly, for ever",
  "After any history of added versions, each based on nothing or on any version stored before, every version ever added is returned exactly as it was stored, also after any number of later additions and retrievals. This holds with every tokenizer whose input format the contents respect and with in-memory or database storage; a tag that was never added is reported absent.",
  ["histories", "inputs", "configurations"], "all histories of additions (linear, branching, several roots), all contents, four tokenizers, memory and SQLite back ends",
  "One linear history of six short texts, two tokenizers, memory only; diffs are re-based on every addition so corruption appears only in longer histories.",
  ["versions.py", "memory_tree.py", "db_tree.py", "db_collections.py", "serialize.py", "changesets.py", "tokenizers.py"],
  [("re-rooting of the delta tree", "Versions.add/_add_edge"), ("patching along the path", "Versions._retrieve_using_path")],
  ["Versions.add/get/__contains__"],
  [("head_version, diffs, tree", "verbatim heads, deltas, spanning forest", "versions.Versions")]),
P("C17", "Version bookkeeping reflects the history",
  "A store contains exactly the tags added to it and reports for each the base it was added with, now and after any later additions. A version on which nothing is based is held verbatim (zero changes, its full size), a version that became the base of another is held as a delta, and information about an unknown tag is reported as absent; this is the same with in-memory and database storage.",
  ["histories", "configurations"], "all histories of additions and queries, memory and SQLite back ends",
  "One linear history, memory only.",
  ["versions.py", "memory_tree.py", "db_tree.py", "db_collections.py"],
  [("base version kept on the tree node", "Tree.add/base_version"), ("delta accounting", "Versions.version_info")],
  ["Versions.version_info", "Versions.__contains__", "Tree.base_version"]),
P("C18", "A rejected addition leaves the version store unchanged",
  "An addition that cannot be carried out (an unknown base, a tag already in use, contents the tokenizer cannot represent) raises an error and changes nothing: the same tags are present with the same contents and bases as before, and later additions and retrievals work as if it had not been attempted.",
  ["histories", "fault_sequences"], "all histories interleaving valid and invalid additions, memory and SQLite back ends, every tokenizer",
  "No test adds anything invalid.",
  ["versions.py", "memory_tree.py", "db_tree.py", "tokenizers.py"],
  [("checks and computation before the first mutation", "Versions.add")],
  ["Versions.add", "Versions.get", "Versions.version_info"]),
P("C19", "Newest version is stored whole and old ones stay close",
  "In a history where each version is based on the previous one, the newest version is stored verbatim and is the start of every retrieval path, consecutive entries of a path are never repeated, and after n additions no retrieval path has more than 2*sqrt(n) entries. An addition stores or rewrites at most two deltas, and exactly one version is stored verbatim per line of history.",
  ["histories"], "all linear histories of any length, memory and SQLite trees",
  "Expected paths are listed for the first seven additions only; the balancing shows its effect later.",
  ["memory_tree.py", "db_tree.py", "db_tree_sql.py", "versions.py"],
  [("split of the longest path near its middle", "Tree.get_split"), ("height propagation", "MemoryTree._update_metrics / DBTree._new_update_metrics")],
  ["Tree.path_to", "Tree.get_split", "Versions storage mappings"],
  [("height, size, children, order", "metrics driving the split", "memory_tree.Node / graph table")]),
P("C20", "In-memory and database trees are interchangeable",
  "Driven by the same history of additions (linear or branching) the in-memory tree and the database tree give the same answers to every query: membership, base version, path to every tag, the split chosen for every tag, and absence of unknown tags. A tag's path runs from the head of a line of history that descends from the tag, a version on which nothing is based, to the tag itself.",
  ["histories", "configurations"], "all histories of tree operations performed by the version store",
  "The two trees run the same fixed linear scenario up to seven nodes with splits; they are never compared beyond it or on branches.",
  ["tree.py", "memory_tree.py", "db_tree.py", "db_tree_sql.py"],
  [("recursive path query", "db_tree_sql.PATH_TO"), ("best child selection", "db_tree_sql.GET_BEST_PATH / MemoryTree.get_split"), ("child slots", "db_tree.change_parent")],
  ["MemoryTree", "DBTree"]),
P("C21", "A database collection behaves like a mapping",
  "Under any sequence of stores, overwrites, deletions and look-ups, a database collection answers exactly as a mapping from text tags to byte contents would: membership, retrieval of the last stored bytes, length, the set of tags iterated, and an error for a missing tag. Collections under different names (identifiers that differ by more than case) never affect one another, creating a collection starts it empty, and all objects that were made for one name show the same mapping, whichever of them it is changed through.",
  ["histories", "inputs"], "all operation sequences over several collections on one connection, all tags and contents",
  "Eight tests of a few operations on one collection with tags '0' to '2'.",
  ["db_collections.py", "db_connections.py"],
  [("upsert", "db_collections.INSERT"), ("row count check on delete", "DBCollection.__delitem__")],
  ["DBCollection"]),
P("C22", "Stored patches survive serialisation",
  "Serialising a patch and reading it back yields the same sequence of non-empty byte runs and non-empty spans, for byte runs and positions of any size the format supports. Reading a truncated serialisation never yields anything that was not in the patch: it gives a leading part of it or fails.",
  ["inputs"], "all sequences of byte runs and spans in any order, all contents and sizes, all truncation points",
  "Seven literal patches of fragments shorter than four bytes.",
  ["serialize.py"],
  [("alternation of byte runs and spans with padding", "serialize.serialize_changeset/deserialize_changeset")],
  ["serialize_changeset", "deserialize_changeset"]),
P("C23", "Integer encoding is exact, compact and self-delimiting",
  "Every integer from 0 to 2^64-1 is encoded so that decoding returns it together with exactly the bytes that followed the encoding. The length is the shortest the scheme allows for its size class (1 byte up to 240, 2 up to 2287, 3 up to 67823, then one more byte than the shortest big-endian form of at least 3 bytes), larger values of integers have encodings that sort later bytewise, and a cut-off encoding or an out-of-range integer is refused.",
  ["inputs"], "all integers 0..2^64-1, all following bytes, all truncations, out-of-range integers",
  "Twenty boundary values are round-tripped with nothing following them.",
  ["serialize.py"],
  [("size classes", "serialize.vserialize_int/vdeserialize_int")],
  ["vserialize_int", "vdeserialize_int", "serialize_int", "deserialize_int"]),
P("C24", "Manifests and all their items stay retrievable",
  "After any history of manifests, each based on nothing or on an earlier manifest and free to add, drop, change, revert or share items, every manifest is read back exactly as given and every item version is retrieved with exactly its contents. A new item version of a name present in the base manifest is recorded as based on that name's item version there, and an item version already stored is not stored again.",
  ["histories", "inputs"], "all manifest histories over any names, tags and contents",
  "One linear history of four manifests with a constant set of three names, no reverts, no branches.",
  ["manifest.py", "versions.py"],
  [("base look-up by name", "manifest.add_manifest"), ("document form", "manifest.manifest_to_doc/doc_to_manifest")],
  ["add_manifest", "get_manifest", "Versions.get", "Versions.version_info"]),
P("C25", "Git-style output carries both sides of every conflict",
  "Writing a merge in git-compatible form to a file, choosing the first part of every conflict block gives the text resolved for the into-branch and choosing the second part gives it for the from-branch, apart from at most one newline at the very end; markers stand on lines of their own, also where diffs are shown along, and name the branch whose text they enclose. The same holds for a git-compatible diff with the modified and the original file; this is so for every tokenisation, and lines outside blocks are unchanged.",
  ["inputs", "configurations"], "all file contents free of marker lines, merge and diff tools, character, word and line tokenisation, conflict-free and conflicting inputs",
  "The command-line tools have no tests.",
  ["merge_tool.py", "diff_to_lines.py", "markup.py"],
  [("branch roles of the arguments", "merge_tool.merge_cli/_merge"), ("markers", "markup.GIT_MARKUP_LEVEL0"), ("line consolidation", "diff_to_lines.consolidated_line_diff")],
  ["merge_cli", "diff_cli with -g -o"]),
P("C26", "Rendering shows every fragment once, on its side, escaped once",
  "Rendering a diff or merge with any markup shows every unchanged fragment once and, for every change, its inserted side and then its deleted side, each once and enclosed in that side's markers with that side's name, separated by one separator, and likewise for changes nested in a line; every piece of content passes through the escaping function exactly once and nothing else does. Options that only affect appearance never make the tools fail or change the text.",
  ["inputs", "configurations"], "all streams of fragments and (nested) changes, all markups, all combinations of appearance options of the tools",
  "Ten fixed streams; the strike-out option and the tools themselves are never run.",
  ["markup.py", "merge_tool.py"],
  [("stream rendering", "markup.markup_stream/markup_change_item"), ("markup selection", "merge_tool.get_markup_style")],
  ["markup_changes", "merge_cli", "diff_cli"]),
P("C27", "Tools emit the text itself, on file and on terminal",
  "A conflict-free merge written to a file is exactly the merged text, and shown on the console it is the same text character for character, whatever brackets, backslashes, colons, long lines or non-ASCII characters it contains (control characters and tabs aside). With conflicts or in a diff the console shows exactly the unchanged text with both sides of each change in order; files that are not valid UTF-8 are read as ISO-8859-1.",
  ["inputs", "configurations"], "all file contents and lengths of line, both tools, every tokenisation, file and console output",
  "No test runs the tools or the console writer.",
  ["merge_tool.py", "markup.py"],
  [("console writer and escaping", "markup.console_writer/rich_escape"), ("file reading with fallback", "merge_tool.get_text"), ("file writer", "markup.file_writer")],
  ["merge_cli", "diff_cli"]),
P("C28", "Automata take linear time and space, and searching them takes linear time",
  "Building a suffix automaton of n tokens takes a number of steps proportional to n, calls each token's hash and equality a bounded number of times per token on average, makes at most 2n states and 3n transitions, and holds memory in proportion to n; searching text of m tokens with a built automaton takes a number of steps proportional to m, whatever the tokens and however they repeat.",
  ["inputs", "sizes"], "all token sequences (periodic, Fibonacci, random, all equal, all different) of any length",
  "Growth cannot be seen in the few short sequences that the tests build, all of which any quadratic construction handles at once.",
  ["suffix_automaton.py"],
  [("construction and search", "suffix_automaton.build/find_lcs")],
  ["build", "find_lcs"]),
P("C29", "Every call's result depends on its arguments only",
  "What a public function returns or yields depends on its arguments only: not on other calls made before, meanwhile (generators consumed in any interleaving or abandoned, other threads) or on what the caller does with results of other calls; items of a generator that have been taken do not change later; arguments are never modified.",
  ["histories", "schedules"], "all sequences and interleavings of calls of all public functions, with partially consumed results",
  "Tests call each function in isolation and consume its result at once.",
  ["changesets.py", "merge.py", "diff_to_lines.py", "markup.py", "tokenizers.py", "serialize.py", "suffix_automaton.py"],
  [("lazily produced results", "diff_token_sequences/merge_token_sequences/to_line_diff"), ("state of tokenizers", "tokenizers.SymbolTokenizer")],
  ["merge", "diff", "find_changeset", "Tokenizer.encode"]),
P("C30", "Tools change nothing but their output; inputs may be overwritten",
  "A run of a tool leaves every file but its output as it was, whatever it is given; it succeeds exactly when all of its inputs can be read and its output can be written, and a run that fails because an input cannot be read leaves the output as it was too; the output may be one of its inputs or one file may be given several times, and the result is the same as from separate files. The test-case tool shows what the merge tool shows for the parent, the second and the first file of the case.",
  ["inputs", "histories"], "all sequences of runs on all assignments of inputs and output to files, including missing files and directories",
  "No test runs the tools.",
  ["merge_tool.py", "torture_test.py"],
  [("reading all inputs before writing", "merge_tool.merge_cli/diff_cli"), ("test cases", "torture_test.torture_cli")],
  ["merge_cli", "diff_cli", "torture_cli"]),
P("C31", "Version stores that share their storage hold the same versions",
  "All the state of a version store is in its storage: several stores on the same storage (new ones at any time, or in several threads or processes with a database file) that take turns in adding and retrieving answer exactly as one store would to the whole history: every version that any of them has added is there for all, with its content and base, at once, and its tag cannot be used again by any of them.",
  ["histories", "schedules"], "all histories of additions and questions divided among any number of stores, in one or several threads or processes, for both kinds of storage",
  "Tests use one store object per storage.",
  ["versions.py", "db_tree.py", "db_collections.py", "memory_tree.py"],
  [("storage given as arguments", "versions.Versions"), ("one transaction per operation", "DBTree/DBCollection")],
  ["Versions.add", "Versions.get", "Versions.version_info", "__contains__"]),
P("C32", "A failed manifest addition damages nothing and can be repeated",
  "When adding a manifest fails, because an item's contents are not given or cannot be encoded, because the manifest's tag is in use (also by one of its own items), or because the base is unknown or is no manifest, it raises an exception; every manifest and item stored before is as it was, no manifest is stored, and each of the new items is either not there or stored with the content that was given and its base; a further addition with what was missing then succeeds and gives the manifest and all items.",
  ["inputs", "histories"], "all histories of manifests with failing attempts of every kind at every item, followed by any further additions",
  "Tests only add manifests successfully, and without a base they name items freely.",
  ["manifest.py", "versions.py"],
  [("items before the manifest", "manifest.add_manifest")],
  ["add_manifest", "get_manifest", "Versions.get"]),
P("C33", "An addition cut short by a crash or failing storage loses no version",
  "When an addition to a version store is cut short at any point, because the process is killed or because an operation of the storage fails, every version stored before is still retrieved with its content, apart from versions at or below one that the complete addition would have moved from one parent in the storage tree to another. In particular no version that was held verbatim is lost, nor any other when the addition moves none. An addition that reports no failure is complete.",
  ["histories", "crash points"], "all histories, all points of the last addition, both kinds of storage, killed processes and failing statements",
  "No test interrupts an addition.",
  ["versions.py", "db_tree.py", "db_collections.py"],
  [("order of storage operations", "versions.Versions._add_edge"), ("transactions", "DBTree.change_parent/DBCollection.__setitem__")],
  ["Versions.add", "Versions.get"]),
P("C34", "A merge shows as conflict only what differs, in one piece",
  "In a merge, conflict-free text and conflicts alternate: no two neighbouring fragments are both text or both conflicts. The two sides of a conflict have no token in common: what both hold is shown as conflict-free text. No fragment is empty, unless the merge as a whole is one empty fragment.",
  ["inputs"], "all (parent, branch, branch) triples and kinds of token sequence, both orders of the branches",
  "Tests compare ~30 literal outputs.",
  ["merge.py", "changesets.py"],
  [("neighbouring fragments become one", "merge.consolidate/consolidate_conflicts"), ("conflicts are split around what both sides hold", "merge.consolidate_conflicts")],
  ["merge_token_sequence"]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
