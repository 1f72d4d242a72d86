"""The properties: text (-> properties.jsonl), harnesses per tier, required covers, bounds."""
INPUTS = ["inputs"]
SEL = "src/ll_line/ll_selection.rs"
LINE = "src/ll_line.rs"
TOK = "src/create_tokens.rs"
TAG = "src/create_tokens/get_word_tag.rs"
X = "src/ll_line/x.rs"
XD = "src/ll_line/x/"
STORE = ["src/type_bucket.rs", "src/type_id_to_many.rs", LINE]


def m(name, where):
    return {"name": name, "where": where}


PROPS = {}


def P(id, title, statement, over, text, why, files, mech, quick, thorough, bounds, outside, covers=None, observe=None, **kw):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, quick=quick.split(), thorough=thorough.split(),
                     bounds=bounds, outside=outside, covers=covers or {}, observe=observe or [], **kw)


P("C01", "Tokenising a line is lossless and positions are contiguous",
  "The texts of a line's tokens, in order, concatenate to exactly the texts that were put in, every custom input token is one opaque token in its place, and no token is empty. "
  "Each token's position range starts where its predecessor's ends (the first at 0) and is exactly as long as the caller's size function says for its text, or as the size given for a custom token.",
  INPUTS, "every non-empty text and every sequence of text and custom input tokens, every size function and custom size",
  "The tests tokenise three fixed strings; an input with another mix of digits, letters, punctuation or multi-byte characters can drop, duplicate or misplace a piece unseen.",
  [TOK, LINE], [m("create_line_from_input_tokens, push_token_text_splitting_off_numbers", TOK), m("position bookkeeping pos_starts_at/pos_ends_at", TOK)],
  "c01_vast c01_many c01_string c01_full1 c01_full2 c01_alpha3 c01_multi2 c01_multi3 c01_long", "c01_alpha5 c01_full3",
  "one text of 1 or 2 arbitrary Unicode scalar values (thorough: 3); 1..3 characters over 14 representative characters (thorough: 5); 1..3 input tokens each a text of up to 3 characters or a custom token of arbitrary 56-bit size; runs of 1..257 equal characters with an arbitrary successor; arbitrary results of the size function (two arbitrary 56-bit sizes, by length); 30 inputs of every kind; texts of up to 600 tokens; the three constructors on the same 1..3 characters",
  "longer arbitrary texts; sizes whose sum overflows usize",
  {"c01_multi2": ["two inputs"]})

P("C02", "Words are segmented and tagged as their characters call for",
  "Text is cut at Unicode word boundaries, and a word that starts with an ASCII digit is cut further into maximal runs of digits, maximal runs of letters and single other characters. "
  "Digit runs are tagged as numbers and letter runs as words, the single others as punctuation; any other piece is tagged space when all its characters are white space, punctuation when it is one of , . ! ; : ? ' \", word when it starts with a letter and continues with letters, apostrophes, hyphens or en dashes, and symbol otherwise.",
  INPUTS, "every non-empty text",
  "The tests show a few dozen fixed words; the classification must hold for every Unicode character in every position.",
  [TOK, TAG], [m("push_token_text_splitting_off_numbers", TOK), m("get_word_tag, is_word, is_spaces", TAG)],
  "c02_full1 c02_full2 c02_in_word c02_alpha3 c02_digits c02_long c02_joined2 c02_joined4 c02_mid c02_vast", "c02_joined3 c02_alpha4 c02_alpha5",
  "texts of 1 and 2 arbitrary Unicode scalar values; an arbitrary character inside 7 fixed contexts; 1..3 characters over 20 representative characters (thorough: 4 over 16, 5 over 12); a digit followed by 4 characters over 6; words of 1..257 letters ended by an arbitrary one of 10 characters",
  "longer arbitrary texts; the Unicode tables of the standard library and of unicode-segmentation are executed as they are and trusted")

P("C03", "Every text token carries its tag, one-character tokens their character",
  "After a line is created, every text token carries exactly one tag attribute equal to its own tag, a token of exactly one character also carries exactly that character as an attribute, and longer tokens and custom tokens carry neither character nor, for custom tokens, tag. Nothing else is attached on its own.",
  INPUTS, "every sequence of text and custom input tokens",
  "The tests look at the attributes of one or two sentences; multi-byte and combining characters, digit pieces and custom tokens are where 'one character' goes wrong.",
  [TOK, LINE], [m("automatic TextTag and char attributes in create_line_from_input_tokens", TOK)],
  "c03_long c03_vast c03_many c03_full1 c03_full2 c03_mix", "c03_alpha4",
  "texts of 1 and 2 arbitrary Unicode scalar values; 1..3 input tokens of up to 2 characters over 8 or custom (thorough: 1..4 characters over 14 between custom tokens); runs of 1..257 equal characters; 40 inputs",
  "longer texts", {"c03_full2": ["one char", "several chars"], "c03_mix": ["one char"]})

P("C04", "Creating and processing a line never fails on non-empty text",
  "Any non-empty text, whatever its characters, can be turned into a line and processed without a panic, and any list of non-empty text and custom input tokens likewise. An empty text is refused immediately rather than silently accepted.",
  INPUTS, "every text and every list of input tokens",
  "Tests only feed well-behaved English text; a panic needs one particular character class in one particular position.",
  [TOK, TAG, LINE], [m("assertions and slicing in create_line_from_input_tokens and push_token_text_splitting_off_numbers", TOK)],
  "c04_in_word c04_pipe2 c04_pipe3 c04_pipe_any c04_full1 c04_full2 c04_digit_any c04_empty c04_empty_str c04_vast c04_pipe_long", "c04_alpha4",
  "texts of 1 and 2 arbitrary Unicode scalar values; an arbitrary character after 4 digit-led prefixes and before 3 suffixes; and inside 6 word contexts; lists of 0..3 inputs with an empty text at any place (thorough: 1..4 characters over 20); 2 and 3 inputs out of 12 and one of 20 characters in 12 contexts through all shipped resolvers and the display",
  "longer arbitrary texts; exhaustion of memory", {"c04_empty": ["empty text", "accepted"]})

P("C05", "Attributes given with an input token cover all of its pieces",
  "An attribute supplied with an input token is found, under its own type and with its own value, on exactly the range of tokens that input was cut into - all pieces together and no neighbour. Several attributes of one input, also of the same type or of a type the library attaches itself, are all kept, in the order given.",
  INPUTS, "every list of input tokens with every list of attributes",
  "Only one test passes attributes with input tokens, one per token; cut inputs, several attributes and colliding types are not reached.",
  [TOK, LINE] + STORE[:2], [m("token range of an input token in create_line_from_input_tokens", TOK)],
  "c05_load c05_shapes1 c05_shapes2 c05_two c05_three c05_own_types c05_pieces", "c05_four",
  "1..3 input tokens out of 4 shapes (1 piece, number pieces, words and blank, custom) with up to 2 attributes each (thorough: 3) out of 3 types with arbitrary values, matched from both sides; 1 and 2 inputs out of 12 shapes; 20 attributes on one input; attributes of the types tag and char with an arbitrary character on 6 texts",
  "more inputs or attributes", {"c05_two": ["several attributes"]})

P("C06", "Queries return exactly the attributes assigned, by range, in order",
  "Querying a line for a type returns every value of that type ever assigned to it, grouped by token range, with the text of the range, values of one range in the order they were assigned, ranges in the order they first got a value - and nothing else. Values of different types never mix, also when they cover the same range.",
  ["histories", "inputs"], "every history of assignments of any types to any token ranges of any line",
  "The tests make one or two assignments; interleavings of types, equal ranges and nested ranges over longer histories are not sampled.",
  STORE, [m("TypeBucket", "src/type_bucket.rs"), m("TypeIdToMany", "src/type_id_to_many.rs"), m("LLLine::add / query", LINE)],
  "c06_ranges c06_two c06_three c06_three_p c06_four_p c06_wide c06_one_pass c06_many c06_kinds c06_far c06_load c06_types c06_vast c06_pass c06_any_kinds", "",
  "lines of 3 tokens with up to 4 symbolic assignments, 7 tokens with 2, 20 and 260 tokens with assignments at boundary positions; 7 values on 2 ranges; 30 values of 2 types on 6 tokens; 20 types on one range; 111 ranges of one type on 50 tokens, one of them arbitrary; owned, zero-sized and plain values; one or several passes; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer histories", {"c06_two": ["several values on one range", "all distinct"], "c06_kinds": ["same range"]})

P("C07", "A resolver sees all earlier layers and only adds to the line",
  "A resolver is given the whole line and sees every attribute assigned before it; running it adds exactly the assignments it returns and leaves tokens, positions and all existing attributes as they were. A pass that returns nothing changes nothing, an empty line is never offered to a resolver, and passes that do not look at each other's attributes can be run in either order.",
  ["histories", "programs"], "every sequence of resolvers over every line",
  "The tests run a handful of fixed pipelines and look at the final display only.",
  [LINE, "src/resolvers.rs"], [m("LLLine::run", LINE)],
  "c07_single c07_passes c07_one c07_two c07_wide c07_commute c07_empty c07_far c07_kinds c07_again c07_dense c07_crowd", "",
  "lines of 3 tokens with up to 2 earlier layers, 6 tokens with 1, then one more pass; two passes in both orders; lines of one token of any kind; 13 passes over lines of 1..33 tokens; up to 43 values carried already, then two arbitrary assignments in one pass and one more on the same range; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "more layers than three; resolvers with internal mutable state")

P("C08", "Finding in a line reports every match once with its position range",
  "Searching a whole line with a matcher reports every place where it matches exactly once, left to right, with the value matched and the position range from the start of its first to the end of its last token, in the units of the caller's size function.",
  INPUTS, "every line, every set of attributes on it, every token size, every matcher",
  "Tests never use custom tokens with sizes together with searching; position ranges of multi-token matches are unchecked.",
  [LINE, TOK], [m("LLLine::find, LLLineFind::range", LINE)],
  "c08_dense c08_two c08_three c08_wide c08_far c08_far2 c08_vast", "",
  "lines of 3 tokens with up to 3 assignments and 5 with 2, 12, 20 and 260 tokens with ranges at boundary positions; custom sizes are arbitrary 16-bit numbers; matchers: by type, by value, sequence, text; 5 tokens carrying 30 fixed values of all lengths plus one arbitrary assignment",
  "longer lines", {"c08_two": ["sequence"]})

P("C09", "Basic matchers match exactly what begins right after the selection",
  "Looking forwards from a selection, a matcher for a type, a value, any of several values on one token, text or white space reports exactly the attributes (or the token) that begin at the token right after the selection: each once, with its own value and extent, none that begins elsewhere, and nothing at the end of the line. A token that carries no attributes matches nothing.",
  INPUTS, "every line, every set of attributes, every selection, every value asked for",
  "Tests check a few sentences with single-token attributes.",
  [XD + "attr.rs", XD + "attr_eq.rs", XD + "token_has_any.rs", XD + "token_text.rs", XD + "functions.rs", X], [m("XForwards", X), m("XMatch implementations", XD)],
  "c09_dense c09_sets c09_fwd2 c09_fwd3 c09_fwd_wide c09_bare c09_far c09_fwd6 c09_vast c09_kinds", "",
  "3 tokens with up to 3 assignments, 6 with 1, 20 and up to 260 with ranges at boundary positions; every selection; arbitrary values out of 3; lines of 3 tokens with and without attributes; sets of 0..65 wanted values; 4 or 5 tokens carrying 40 fixed values of all lengths plus one arbitrary assignment; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c09_fwd2": ["at the edge", "matched"], "c09_bare": ["bare token"]})

P("C10", "Looking backwards is the mirror image of looking forwards",
  "Looking backwards from a selection, every basic matcher reports exactly the attributes (or the token) that end at the token right before the selection, under the same conditions as forwards: each once, with its own value and extent, and nothing at the start of the line. A range matches backwards from its right neighbour exactly when it matches forwards from its left neighbour.",
  INPUTS, "every line, every set of attributes, every selection, every value asked for",
  "Only three tests look backwards at all.",
  [XD + "attr.rs", XD + "attr_eq.rs", XD + "token_has_any.rs", XD + "token_text.rs", X], [m("XBackwards", X), m("XMatch implementations", XD)],
  "c10_dense c10_bwd2 c10_bwd3 c10_bwd_wide c10_bare c10_mirror c10_far c10_bwd6 c10_vast c10_kinds", "",
  "as C09, backwards", "longer lines", {"c10_bwd2": ["at the edge", "matched"], "c10_bare": ["bare token"], "c10_mirror": ["multi token"]})

P("C11", "A sequence matches exactly where its parts are adjacent, in order",
  "A sequence matcher reports one match for every way its parts match one directly after the other in its direction (no gap, no overlap), covering all of them and giving each part's value, and nothing else; sequences nest without changing what matches.",
  INPUTS, "every line, every set of attributes, every selection, sequences of two and three parts, both directions",
  "Tests have one forward and one backward sequence on fixed lines; overlaps, gaps and several continuations are not reached.",
  [XD + "seq.rs", X], [m("Seq over pairs and triples", XD + "seq.rs")],
  "c11_dense_fwd c11_dense_bwd c11_fwd2 c11_bwd2 c11_three_fwd c11_three_bwd c11_fan_fwd c11_fan_bwd c11_kinds_fwd c11_kinds_bwd", "c11_fwd3 c11_bwd3 c11_far_fwd c11_far_bwd",
  "3 tokens with 2 assignments from every selection, 4 tokens with 3 assignments from the edge (thorough: from every selection), 2 types, 2 values; 4 tokens carrying 40 fixed values (many continuations per part) plus one arbitrary assignment; up to 40 values of a part at one place; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer sequences than three parts (the library has none)", {"c11_fwd2": ["two in sequence"], "c11_bwd2": ["two in sequence"], "c11_three_fwd": ["three in sequence"], "c11_three_bwd": ["three in sequence"]})

P("C12", "'All' needs the same range, 'any of' is first alternative that matches",
  "A conjunction matches exactly the ranges that all its parts match, one match per combination of their values. An alternative reports exactly the matches of its first part that matches at all there, labelled with that part.",
  INPUTS, "every line, every set of attributes, two and three parts, both directions, nested",
  "Tests cover two fixed alternatives and one conjunction with single-token ranges.",
  [XD + "all.rs", XD + "any_of.rs", X], [m("All", XD + "all.rs"), m("AnyOf", XD + "any_of.rs")],
  "c12_dense_fwd c12_dense_bwd c12_fwd2 c12_bwd2 c12_fwd3 c12_bwd3 c12_product c12_fan c12_kinds_fwd c12_kinds_bwd", "",
  "3 tokens with up to 3 symbolic assignments, both edges; four values over two ranges; up to 40 values of one part (17 by 5, 8 by 8) over two ranges; 4 or 5 tokens carrying 40 fixed values of all lengths plus one arbitrary assignment; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c12_fwd2": ["both"], "c12_fwd3": ["both", "all three", "third alternative"], "c12_bwd3": ["both", "all three"], "c12_product": ["four combinations"]})

P("C13", "Selections stay valid under every sequence of operations",
  "Whatever chain of searching, extending, splitting and trimming produced it, a selection is a non-empty range of tokens inside its line, operations on it never fail, and searching it sees exactly its tokens. Two selections are equal exactly when they are the same range of the same line.",
  ["histories", "inputs"], "every chain of selection operations over every line and set of attributes",
  "Each test applies one operation to one fixed line; off-by-one results show up only when operations are chained.",
  [SEL], [m("LLSelection constructors and operations", SEL)],
  "c13_ops2 c13_ops2m c13_eq c13_kinds", "c13_ops3 c13_ops3m c13_wide",
  "every chain of 2 operations out of 16 over 3 tokens with up to 2 assignments from every selection (thorough: chains of 3; 5 tokens); 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer chains; selections kept across passes", {"c13_ops2": ["whole sequence of operations"]})

P("C14", "Searching a selection reports every match that starts in it, once",
  "Searching a selection reports every match of the matcher that starts at a token of the selection exactly once, with its range and value, token by token from left to right, including matches that reach beyond the selection; the first-match search returns the first of them. The two-directional search adds, per token, the matches that end there.",
  INPUTS, "every selection of every line, every set of attributes, every matcher",
  "Tests search whole lines with one match or two.",
  [SEL, X], [m("find_by, find_first_by, find_by_forwards_and_backwards", SEL)],
  "c14_dense c14_two c14_three c14_wide c14_far c14_grid c14_many c14_vast c14_lone c14_kinds", "c14_three_p c14_grid3",
  "3 tokens with up to 3 assignments of 2 types, 6 with 1, 20 and up to 260 with ranges at boundary positions, every selection (thorough: 4 tokens with 3); 7 kinds of composed matchers on 4 tokens with 2 assignments (thorough: 3 with 3); lines of 1..70 tokens with a match on every token and 12 more on one; 4 or 5 tokens carrying 40 fixed values of all lengths plus one arbitrary assignment; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c14_two": ["a match that starts inside and reaches outside", "sequence"]})

P("C15", "Extending a selection covers the selection and the match, nothing else",
  "Matching forwards or backwards from a selection gives, for each neighbouring match, the selection extended to cover exactly itself and the match; the first-match forms give the first of these. The remainder after a selection is everything from the next token to the end of the line, and is absent exactly when the selection reaches the end.",
  INPUTS, "every selection of every line, every set of attributes, every matcher",
  "Tests extend a few selections by single tokens in the middle of a line.",
  [SEL], [m("match_forwards, match_backwards, match_first_forwards, match_first_backwards, after", SEL)],
  "c15_dense c15_two c15_three c15_wide c15_walk c15_far c15_far2 c15_grid c15_many c15_vast c15_kinds", "c15_grid3",
  "3 tokens with up to 3 assignments, 6 with 1, 20 and up to 260 with ranges at boundary positions, every selection; lines of 1..6 tokens walked to the end; 7 kinds of composed matchers on 4 tokens with 2 assignments (thorough: 3 with 3); 12 neighbouring matches on lines of 1..70 tokens; 4 or 5 tokens carrying 40 fixed values of all lengths plus one arbitrary assignment; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c15_two": ["after", "several"]})

P("C16", "Splitting by a matcher gives the maximal unmatched runs",
  "Splitting a selection by a matcher returns, in order, exactly the maximal runs of its tokens that belong to no match starting in the selection: no piece contains a matched token, no unmatched token is lost, and no piece is empty - also when matches overlap, nest or reach outside.",
  INPUTS, "every selection of every line, every set of attributes, every matcher",
  "Two tests split by single-token separators.",
  [SEL], [m("split_by", SEL)],
  "c16_dense c16_two c16_types c16_wide c16_list c16_far c16_grid c16_many c16_vast c16_kinds", "c16_grid3 c16_three c16_list8 c16_far2",
  "4 tokens with 2 assignments, 3 tokens with 3 of 2 types, 7 with 1, 20 and up to 260 with ranges at boundary positions, lists of 6 tokens with every separator pattern; every selection (thorough: 4 with 3, lists of 8); 7 kinds of composed matchers on 4 tokens with 2 assignments (thorough: 3 with 3); lists of 70 tokens; 6 tokens with 3 fixed and one arbitrary assignment; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c16_two": ["nothing left", "several pieces"], "c16_list": ["three pieces"]})

P("C17", "Cutting a selection by another gives exactly what lies on either side",
  "Cutting a selection by another selection of the same line gives its part before the other and its part after it, each absent exactly when empty, wherever the two lie relative to each other. Selections of different lines are refused.",
  INPUTS, "every pair of selections of every line",
  "No test calls it directly; the relative positions of two ranges are a case analysis that samples miss.",
  [SEL], [m("split_with", SEL)],
  "c17_cut c17_cut6 c17_cut9 c17_far c17_other_line c17_kinds", "c17_vast",
  "every pair of ranges of lines of 4, 6 and 9 tokens; boundary ranges of 20 (thorough: 260); pairs of lines of 1..3 tokens; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c17_cut": ["both parts", "no part"]})

P("C18", "Trimming removes exactly the first match at each end",
  "Trimming a selection removes, at the end(s) asked for, exactly the first match that begins at its first token or ends at its last, and is absent exactly when nothing is left. The result is always a part of the selection, and without a match at the edge it is the selection itself.",
  INPUTS, "every selection of every line, every set of attributes, every matcher",
  "Three tests trim white space around words.",
  [SEL], [m("trim, trim_start, trim_end", SEL)],
  "c18_dense c18_two c18_two4 c18_blanks c18_far c18_grid c18_vast c18_kinds", "c18_grid3 c18_three c18_wide c18_far2",
  "3 and 4 tokens with 2 assignments, 5 tokens with every blank pattern, 12, 20 and 260 tokens with ranges at boundary positions, every selection (thorough: 4 tokens with 3, 6 with 2); 7 kinds of composed matchers on 4 tokens with 2 assignments (thorough: 3 with 3); 4 or 5 tokens carrying 40 fixed values of all lengths plus one arbitrary assignment; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer lines", {"c18_two": ["nothing left", "trimmed at both ends"], "c18_blanks": ["only whitespace"]})

P("C19", "Word-list assignment hits exactly the tokens equal to a key",
  "A word-list resolver assigns to every text token equal to a key (when case is ignored: whose lower-case form is that of the key) every value of every such key exactly once, values of one key in the order given, and assigns nothing to any other token.",
  ["inputs", "configurations"], "every word list and every line",
  "One test has one case-insensitive list; keys that differ only by case, non-ASCII case and several values per key are not reached.",
  ["src/resolvers/text_match.rs"], [m("TextMatchAssignResolver", "src/resolvers/text_match.rs")],
  "c19_odd c19_many c19_exact c19_nocase c19_arr c19_exact3 c19_nocase3 c19_arr3 c19_letters c19_whole c19_long c19_vast", "",
  "1..3 tokens out of 9 texts (ASCII, Latin, Greek; different cases) and a custom token against 5 keys with up to 2 arbitrary values; all pairs of single letters in both cases; a mixed sentence with arbitrary digits; 12 keys, 30 values of one key, 25 tokens; words whose lower-case form has another length or folds together with others, blanks and marks as keys",
  "longer texts and lists; locale-specific case rules beyond Rust's to_lowercase; hash seeds other than the executor's", {"c19_nocase": ["colliding keys"], "c19_letters": ["hit"], "c19_whole": ["number"]})

P("C20", "Every number in a text becomes exactly one amount of the right value",
  "Every maximal number of the text - digits, grouped by the configured delimiters, with at most one fraction after the configured decimal mark - gets exactly one amount whose value and number of decimals are exactly what its digits say (as far as the decimal type can hold them: beyond its 28 digits the value is rounded, beyond its range there is none), covering exactly its digits and inner separators. Separators that do not stand between digits belong to no amount, and no number, however long, makes the resolver fail.",
  ["inputs", "configurations"], "every text, every delimiter set and decimal mark, the English and French presets",
  "Three tests show a handful of amounts; the value must be right for every digit in every grouping.",
  ["layered-amount/src/amounts.rs"], [m("AmountResolver", "layered-amount/src/amounts.rs")],
  "c20_long_int c20_long_groups c20_long_frac c20_long_both c20_groups c20_groups2 c20_groups3 c20_many c20_en4 c20_fr4 c20_cu4 c20_big c20_huge c20_config c20_doc c20_en5 c20_fr5 c20_cu5 c20_rows c20_delims", "c20_rows3 c20_en6 c20_fr6",
  "texts of 4 and 5 pieces (arbitrary digit, letter, each separator) under three configurations (thorough: 6); 2, 3 and 4 groups of 1..6, 1..4 and 1..3 arbitrary digits with any separators; 12 numbers in one text; d,ddd,ddd,ddd.dddd with every digit arbitrary; numbers of 1..31 digits around the limits of the decimal type; numbers of up to 28 digits, up to 27 groups and 27 decimals with every 9th or 14th digit arbitrary; all pairs out of 5 delimiter and decimal characters",
  "longer texts; numbers given across several input tokens; grouping inside a fraction (see DESIGN.md: known finding)", {"c20_en4": ["several amounts", "fraction", "grouped"], "c20_big": ["big"], "c20_huge": ["representable", "beyond"]},
  findings=["c20_doc_frac"])

P("C21", "Finishing a selection assigns its value to exactly its tokens",
  "Finishing a selection with a value assigns that value to exactly the selection's tokens, whichever chain of operations produced the selection; finishing a list of matches makes one assignment per match, in order, with the value computed from that very match, also for equal or overlapping matches. The next pass finds each value once, on exactly that range.",
  ["inputs", "histories"], "every selection obtained by any chain of operations, every list of matches, every line",
  "The tests finish a few selections of single words; assignments after trimming, splitting and extending, repeated equal matches and long lists are not reached.",
  ["src/ll_line/finish_with.rs", SEL], [m("FinishWith::finish_with, finish_with_attr", "src/ll_line/finish_with.rs"), m("LLSelection::finish_with_attr", SEL)],
  "c21_chain1 c21_chain2 c21_lists c21_lists3 c21_dense c21_lists_far c21_vast c21_kinds", "c21_chain2m c21_far",
  "every chain of 1 and 2 operations over 3 tokens with an assignment (thorough: with several, and longer lines); lists of all matches of 2 assignments on 4 and 3 on 3 tokens; tokens carrying 40 values; boundary ranges of 20 and up to 260 tokens; 3 tokens of any of 4 kinds (custom, blank, mark, word) with 1 or 2 assignments",
  "longer chains", {"c21_chain1": ["finished"], "c21_chain2": ["finished"], "c21_lists": ["several"]})

P("C22", "Clause keywords are recognised on whole words, in any case",
  "Exactly the text tokens equal, ignoring case, to a configured word get a clause keyword, exactly one each, of the kind the word is configured for; a word configured for several kinds starts a condition before it means 'then', and means 'then' before 'and'.",
  ["inputs", "configurations"], "every text and every configuration of the three word lists",
  "The tests use one configuration and lower-case sentences.",
  ["layered-clauses/src/clause_keyword.rs"], [m("ClauseKeywordResolver", "layered-clauses/src/clause_keyword.rs")],
  "c22_odd c22_many c22_letters c22_words2 c22_words3 c22_lists c22_long", "",
  "two words of two arbitrary ASCII letters each; 1..3 tokens out of 10; every combination of empty lists; configured words in any case, with apostrophes, hyphens and non-ASCII letters against their look-alikes; lists of 12 words",
  "longer texts and lists", {"c22_letters": ["two keywords"]})

P("C23", "Clauses partition the text between separators, with the right kind",
  "Every maximal piece of text between separators (keywords and punctuation) that is not blank becomes exactly one clause, without the blank token at either end and never including a separator. A lone piece is a condition if a condition keyword stands before it and independent otherwise; of several, a piece after a condition keyword is a condition, one after 'then' or after an earlier condition a trailing effect, any other a leading effect.",
  INPUTS, "every arrangement of words, blanks, punctuation and keywords, and every set of keyword ranges",
  "Eight fixed sentences; orderings of keywords, adjacent separators, blanks at the edges and multi-word keywords are not sampled.",
  ["layered-clauses/src/clauses.rs"], [m("ClauseResolver", "layered-clauses/src/clauses.rs")],
  "c23_many c23_marks c23_four c23_five c23_long c23_long5 c23_ranges c23_ranges7 c23_ranges3 c23_vast", "c23_six",
  "every line of 4 and 5 tokens out of 6 kinds (thorough: 6), of 4 out of 12 with other marks; 14 clauses in one text; up to 5 separator-word pairs; up to 3 keywords on arbitrary ranges of 5 tokens, 2 on 7",
  "longer texts", {"c23_four": ["condition", "trailing effect", "leading effect", "independent"]})

P("C24", "Every word gets its dictionary tags, unknown words are nouns",
  "The part-of-speech resolver gives every word token exactly the tags the dictionary has for its lower-case form, in order, or noun when the dictionary does not know it; numbers, punctuation, blanks, symbols and custom tokens get none. Letter case never changes the result.",
  INPUTS, "every text",
  "There is no test of this crate at all, only an example.",
  ["layered-part-of-speech/src/lib.rs"], [m("POSTagResolver", "layered-part-of-speech/src/lib.rs")],
  "c24_odd c24_many c24_case c24_mixed2 c24_mixed3 c24_letter1 c24_letters c24_known c24_vast", "",
  "every casing of 6 words; pairs of 26 unusual words (apostrophes, hyphens, long, non-ASCII); 40 words in one text; lines of 2 and 3 tokens out of 8 kinds; every word of one and two ASCII letters in any case",
  "other words: the dictionary is executed as it is and trusted", {"c24_case": ["ambiguous word"], "c24_known": ["more than four tags"]})

P("C25", "The display shows every token and one aligned row per value",
  "The textual display of a line shows its tokens in order and, for each type asked for, one row per value in which the bracket starts under the first column of the range's first token, ends under the last column of its last token, and is followed by the value; types not asked for and types without values add nothing. Rows come in the order the types were asked for.",
  INPUTS, "every line, every set of attributes, every display width of its characters",
  "The snapshot tests show a few lines of narrow characters.",
  ["src/ll_line/display.rs"], [m("LLLineDisplay", "src/ll_line/display.rs")],
  "c25_one c25_two c25_types c25_three c25_widths2 c25_widths3 c25_lengths c25_values c25_many c25_empty c25_vast", "",
  "6 tokens with 1 value, 4 with 2, 3 with 3 of 2 types; 2 and 3 tokens of 7 characters of width 0, 1 and 2; 3 words of 1..5 arbitrary letters; values whose debug form is one arbitrary letter; 6 kinds of longer, quoted, wide and empty values; 40 tokens with a value each, 12 values on one range and one more on an arbitrary one",
  "longer lines; values whose debug form has several lines; the width tables of unicode-width are executed as they are", {"c25_two": ["several values on one range"], "c25_three": ["several values on one range"]})

P("C26", "Type-erased attributes keep their value and give it back to their type only",
  "An attribute wrapped without its type reports exactly its own type, is extracted unchanged as that type and as no other, and a failed extraction hands it back unharmed, still usable. Lists of such attributes of mixed types keep every value with its type, in order.",
  INPUTS, "every value and type, every order of extractions",
  "No test extracts anything.",
  ["src/type_bucket.rs", TOK], [m("AnyAttribute", "src/type_bucket.rs")],
  "c26_extract c26_owned c26_mixed c26_many c26_drops", "",
  "arbitrary one-byte values, owned strings, zero-sized types; lists of 4 attributes of 2 types, 24 of 12 types on one input; values with a reference count (dropped once, not before)",
  "types with destructors that observe double drops beyond heap ownership", {"c26_extract": ["extracted", "used"]})

NOT_APPLICABLE = {}
