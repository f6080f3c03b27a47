"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "Tagged-token wire format round-trips any field value",
     "Serializing a token (name, fields in order, arbitrary Unicode values including quotes, backslashes, braces and newlines) and parsing "
     "the text back yields exactly the same tokens, names, field order and values. Escaping a value and decoding it is the identity, and no "
     "value can end its field early or leak into another field or token.",
     ["inputs"], "all token lists with names/keys of letters and underscores and values of any characters",
     "tests escape a handful of values; the round trip quantifies over all strings and all token lists",
     ["tn/token_parser.py", "tn/processor.py"],
     [("escape_value / Token.string", "tn/token_parser.py"), ("TokenParser.parse_value, parse", "tn/token_parser.py")],
     observe=["TokenParser.parse", "TokenParser.reorder"])
prop("C02", "The token parser accepts exactly the wire grammar",
     "Parsing any string terminates and either yields the tokens that string denotes or raises the documented token parse error; no other "
     "exception escapes and no malformed stream (missing brace, quote, key, separator, unterminated value or escape, repeated field, "
     "trailing garbage) is accepted.",
     ["inputs"], "all strings",
     "tests sample a few malformed streams; acceptance of exactly one language is a statement about all strings",
     ["tn/token_parser.py"],
     [("TokenParser.parse and its readers", "tn/token_parser.py"), ("TokenParseError", "tn/token_parser.py")],
     state=[("index/char cursor", "char is text[index] or EOS", "tn/token_parser.py TokenParser.read")],
     observe=["TokenParser.parse"])
prop("C03", "Reordering permutes fields canonically and loses nothing",
     "Reordering a token stream keeps every token, in order, and every field with its exact value, once each. Fields of a token type with a "
     "configured order come out in that order followed by all other fields in their original order, unless preserve_order is \"true\" in the token or the type has "
     "no configured order, when the original order is kept; reordering twice changes nothing more.",
     ["inputs"], "all well-formed token streams and all order schemas",
     "tests reorder fixed tokens under the shipped schemas",
     ["tn/token_parser.py"],
     [("Token.string", "tn/token_parser.py"), ("TokenParser.reorder_with_spans", "tn/token_parser.py")],
     observe=["TokenParser.reorder"])
prop("C04", "Token spans are exact in both token streams",
     "After parsing, every token's recorded start/end delimits exactly the text of that token in the parsed stream; after reordering, every reported span "
     "delimits exactly that token's serialization in the reordered stream. Spans are ordered, non-overlapping, "
     "in range, and one per token.",
     ["inputs"], "all well-formed token streams",
     "tests check spans of a few streams",
     ["tn/token_parser.py"],
     [("Token.start/end in TokenParser.parse", "tn/token_parser.py"), ("offset bookkeeping in reorder_with_spans", "tn/token_parser.py")],
     observe=["TokenParser.tokens", "TokenParser.reorder_with_spans"])
prop("C05", "Mappings describe the normalization faithfully",
     "For every text, normalize_with_mapping returns the same output as normalize; every mapping's input/output text is exactly the slice of the input/output at its "
     "character offsets, kind is equal/delete/replace exactly as those two texts dictate, and mappings are ordered and non-overlapping on both sides. With include_identity "
     "every tagged token has one mapping, input text outside the mappings is only whitespace, and without it exactly the non-equal ones remain.",
     ["inputs"], "all texts, all pipelines, all n-best ranks",
     "tests check the mappings of sample sentences",
     ["tn/processor.py", "tn/alignment.py"],
     [("Processor._normalize_candidate_with_mapping", "tn/processor.py"), ("trace_input_spans, transduce_with_spans", "tn/alignment.py")],
     observe=["normalize_with_mapping"])
prop("C06", "Span tracing is sound on any transducer path",
     "For any transducer and any requested token spans, tracing either returns one span per token or raises its alignment error (or the documented error for an empty "
     "requested span): returned spans lie inside the text at character boundaries, never split a code point, are ordered and non-overlapping on the output side, and the traced "
     "output is one the transducer really produces for that input, the requested one when one is given. Text consumed (or emitted) while the path is inside a token belongs to that token; text deleted or whitespace emitted between tokens belongs to none. Tracing never falls back to comparing texts.",
     ["inputs"], "all linear paths with any interleaving of input, output and epsilon labels over multi-byte text, all span lists",
     "tests trace a few hand-made transducers; the offset bookkeeping must hold for every arc sequence",
     ["tn/alignment.py"],
     [("_text_boundaries, _character_spans_to_byte_spans, _linear_arcs", "tn/alignment.py"), ("trace_input_spans, transduce_with_spans loops", "tn/alignment.py")],
     observe=["trace_input_spans", "transduce_with_spans"])
prop("C07", "N-best lists are distinct, best first and stable",
     "For every text and n >= 1, normalize(text, n) returns at most n pairwise different outputs; the first equals normalize(text), and the list for n is a prefix of the list for any "
     "larger n. Outputs come in non-decreasing order of path cost (tagger cost plus excess verbalizer cost), none that is reachable at lower cost is skipped, and a non-integer, boolean or non-positive n is rejected.",
     ["inputs", "histories"], "all texts, all n, all weighted tagger/verbalizer pairs",
     "tests fix a few sentences and small n on the shipped grammars",
     ["tn/processor.py"],
     [("_UniqueOutputPathStream", "tn/processor.py"), ("Processor._normalization_candidates", "tn/processor.py")],
     state=[("frontier", "heap of best pending candidate per activated tag", "tn/processor.py _normalization_candidates")],
     observe=["Processor.normalize", "Processor.tag"])
prop("C08", "A cached grammar is used only when it is the right, intact one",
     "A processor loads a stored grammar only if it is a complete bundle whose recorded identity (pipeline, options, token schema, sources, builder) equals the current one and whose files match their "
     "recorded sizes and checksums; anything else is a miss and is rebuilt, never an error or a wrong grammar; only a link, directory or special file in place of a cache file or directory is refused with the cache path error. Different identities never share a stored location, and what is loaded is exactly the "
     "pair that was built.",
     ["inputs", "histories", "configurations"], "all option sets, source states and stored directory contents",
     "tests corrupt a bundle in a few ways; the guarantee is about every possible stored content and every identity pair",
     ["tn/cache.py", "tn/processor.py"],
     [("CacheBundle.__init__ digests", "tn/cache.py"), ("CacheBundle._load_path", "tn/cache.py"), ("Processor.build_fst", "tn/processor.py")],
     state=[("bundle directory", "tagger.fst, verbalizer.fst, manifest.json", "tn/cache.py")],
     observe=["CacheBundle.load", "Processor.build_fst"])
prop("C09", "The source fingerprint covers every grammar source, unambiguously",
     "The fingerprint changes whenever any grammar-producing source file (.py, .tsv, .far under the two packages, except tests, bytecode caches and the version file) is added, removed, renamed or "
     "changed in any byte. It depends on nothing else: not on file order, timestamps, location or ignored files, and two different source sets never hash the same byte stream.",
     ["inputs", "configurations"], "all source trees",
     "tests touch one file; injectivity of the encoding is a statement about all pairs of trees",
     ["tn/cache.py"],
     [("production_source_fingerprint", "tn/cache.py")],
     observe=["production_source_fingerprint"])
prop("C10", "Every pipeline option is part of the cache identity",
     "For every production pipeline, constructing it with any two different option sets uses two different cache identities, every constructor option that affects grammar construction is recorded in the identity, and equal "
     "options always give the same identity.",
     ["configurations"], "all option assignments of the six pipelines",
     "tests compare a few option pairs; an option forgotten in the identity only shows as a stale grammar for some option pair",
     ["tn/chinese/normalizer.py", "tn/japanese/normalizer.py", "tn/english/normalizer.py", "itn/chinese/inverse_normalizer.py",
      "itn/japanese/inverse_normalizer.py", "itn/english/inverse_normalizer.py", "tn/cache.py"],
     [("cache_config dictionaries in the constructors", "tn/*/normalizer.py, itn/*/inverse_normalizer.py"), ("config_digest", "tn/cache.py")],
     observe=["CacheBundle.path", "manifest.json"])
prop("C11", "Publishing a bundle is atomic at every crash point",
     "If the process stops at any point while building, replacing, quarantining or cleaning up a cached bundle, a later load sees either one complete published pair or nothing, never a mixed or partial pair. The next "
     "construction then succeeds, recovers a complete previous bundle when the current one is missing, and an existing valid bundle is never lost to a failed publish.",
     ["crash_points", "fault_sequences", "histories"], "all crash points and I/O errors in all file-system operations of publish, recovery and quarantine",
     "tests inject a few failures at chosen calls",
     ["tn/cache.py"],
     [("CacheBundle.publish", "tn/cache.py"), ("CacheBundle.recover_residuals, remove_invalid", "tn/cache.py")],
     state=[("temporary, previous, final directory", "stages of a publication", "tn/cache.py publish")],
     observe=["CacheBundle.load after a crash"])
prop("C12", "The cache never touches anything but its own files",
     "Whatever the cache root contains (links, foreign files, directories, special files) and whatever prefix is given, the cache creates, renames and deletes only inside its root, never follows a link it did not create, removes only directories of its own key holding only its own "
     "file names and links (unlinked, never followed), and never deletes another bundle or the target of a link.",
     ["inputs", "configurations"], "all directory contents below the cache root and all prefixes",
     "tests plant a few links",
     ["tn/cache.py"],
     [("_remove_flat_bundle_impl", "tn/cache.py"), ("CacheBundle._assert_under_root, _ensure_directory, _validate_directory_chain, _open_directory_chain", "tn/cache.py"),
      ("recover_residuals name/type filter", "tn/cache.py")],
     observe=["os.unlink/os.rmdir/os.replace/os.open calls"])
prop("C13", "Bundles are built and changed only under the key's lock",
     "Cache directories are modified only while the exclusive lock of that key is held; the lock is always released and its descriptor closed, also on errors, a second holder waits and times out with the documented error within its deadline, and invalid timeouts are "
     "rejected. After waiting for the lock a processor re-checks for a finished bundle before building, so concurrent constructions build once.",
     ["schedules", "fault_sequences", "histories"], "all outcomes (busy, error, success) of every lock attempt and all exceptions inside the locked region",
     "tests run two or three processes once",
     ["tn/cache.py", "tn/processor.py"],
     [("CacheBundle.lock", "tn/cache.py"), ("Processor.build_fst", "tn/processor.py")],
     observe=["flock calls", "CacheLockTimeout"])
prop("C14", "The command line processes every line and passes every option on",
     "For each input line, in order, the command prints exactly the tag and the verbalization of that line with only its line ending removed, for --text, --file and standard input alike. Each option given on the command "
     "line reaches the selected pipeline with the given value in every accepted spelling, omitted options take the pipeline's documented default, and options of other pipelines are rejected.",
     ["inputs", "configurations"], "all lines, all option combinations of all six pipelines",
     "tests cover some options and lines",
     ["tn/cli.py", "tn/main.py", "itn/main.py"],
     [("_without_line_ending, _process_line, run", "tn/cli.py"), ("_add_boolean, create_parser, create_processor", "tn/cli.py")],
     observe=["stdout of wetn/weitn", "constructor arguments"])
prop("C15", "Every text can be normalized",
     "For each of the six pipelines and every non-empty text of valid characters (any script, whitespace, control characters, quotes, backslashes, brackets), the tagger has at least one analysis, so tagging never fails.",
     ["inputs"], "all non-empty strings of valid characters other than U+0000",
     "tests run fixed sentences; a text without an analysis is found only by quantifying over all strings",
     ["tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py",
      "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
     [("fallback char/word/punctuation rules in every tagger union", "tn/*/rules/char.py, word.py, punctuation.py")],
     observe=["Processor.tag", "Processor.normalize"])
prop("C16", "Every tag is well formed and can be verbalized",
     "For each pipeline, every analysis the tagger can produce for any text (not only the best one) is a well-formed token stream with distinct fields, and after field reordering the verbalizer accepts it, for any number and sequence of tokens.",
     ["inputs"], "all texts, all analyses",
     "tests verbalize the best tags of sample sentences",
     ["tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py",
      "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py", "tn/processor.py", "tn/token_parser.py"],
     [("RuleSpec inventory shared by tagger_union/verbalizer_union", "tn/processor.py"), ("tag_field/verbalize_field", "tn/processor.py"), ("TOKEN_ORDERS", "*/normalizer.py")],
     observe=["Processor.tag", "Processor.verbalize"])
prop("C20", "Tags preserve the written input",
     "For each pipeline, the decoded field values of any analysis, concatenated in order, are the input text itself with nothing but whitespace and field-separating punctuation (such as / - . : @) left out and nothing rewritten, added or reordered; only declared control fields carry no input text.",
     ["inputs"], "all texts, all analyses",
     "tests look at the tags of sample sentences",
     ["tn/processor.py", "tn/chinese/rules", "tn/english/rules", "tn/japanese/rules", "itn/chinese/rules", "itn/english/rules", "itn/japanese/rules"],
     [("tag_field, input_projection", "tn/processor.py")],
     observe=["Processor.tag"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
