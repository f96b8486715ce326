"""Source of /verif/properties.jsonl (kept as code only because it is easier to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe))))
T='codeprep/api/text.py'
p('C01','Tokenization loses, invents and reorders nothing',
  "Without filtering options, tokenizing any source text (that the language's lexer accepts) in no-split mode returns successfully and yields exactly the text's non-whitespace characters, in order and unaltered except for the letter case of numbers, plus one <EOL> mark per one-line comment (and, on request, a final <EOF>). "
  "Newlines and tabs appear as their own tokens exactly where the lexer reports them (a run of n blanks counts as n/4 tabs), only a final newline is dropped, no token contains a space, and with full strings each string literal is one token that keeps its inner whitespace (blanks as non-breaking spaces).",
  ['inputs','configurations'],'every text (any Unicode, any programming language, malformed code included) and every file extension, with and without full strings and <EOF>',
  'Tests compare a couple of fixed Java/JS/Python snippets with expected lists; the guarantee is about every lexeme sequence and every character class.',
  ['codeprep/parse/core.py','codeprep/parse/matchers.py','codeprep/parse/subtokens.py','codeprep/tokens/word.py','codeprep/tokens/containers.py','codeprep/tokens/numeric.py',T],
  [('convert_text','codeprep/parse/core.py'),('split_into_words/split_string','codeprep/parse/subtokens.py'),('Word.from_','codeprep/tokens/word.py'),('remove_trailing_newline',T)],
  observe=['codeprep.api.text.nosplit'])
p('C02','Word-boundary metadata always describes the token list',
  "For every text and every option set, the returned word boundaries start at 0, strictly increase and end at the number of tokens, and there is exactly one token type per word: the type of the lexical element that the word came from (every word of a comment or string carries the comment or string type). "
  "Every word delimited by the boundaries is one full token of the text or one placeholder or special token: all the subtokens of one identifier, number, or BPE-encoded string belong to the same word, and in BPE and chars modes a token ends with </t> exactly when it is the last of its word (texts that themselves contain the characters </t> aside).",
  ['inputs','configurations'],'every text x every splitting mode x every combination of filter options',
  'Tests check metadata for hand-picked snippets with few option sets; boundaries have to add up under every nesting of containers, options that drop tokens, and splitters.',
  ['codeprep/preprocess/metadata.py','codeprep/preprocess/core.py','codeprep/tokens/containers.py','codeprep/pipeline/to_repr.py'],
  [('PreprocessingMetadata.update','codeprep/preprocess/metadata.py'),('wrap_in_metadata_for_full_word','codeprep/tokens/rootclasses.py'),('insert_and_word_tokens','codeprep/pipeline/to_repr.py')],
  observe=['return_metadata=True of codeprep.api.text.*'])
p('C03','Identifier splitting follows the convention and is reversible',
  "In basic mode every identifier is cut exactly at camelCase, acronym, underscore, and letter/digit boundaries; if and only if the result has more than one subtoken it is enclosed in <w> and </w>, and the pieces concatenate back to the identifier. "
  "With lowercasing, each piece becomes a lowercase piece preceded by <Cap> (first letter upper) or <CAPS> (all upper) exactly when needed to restore it (a lone capitalised word needs no <w> pair), so no case information is lost; with number splitting every multi-character number becomes its characters in <w> </w>, otherwise numbers stay whole.",
  ['inputs','configurations'],'every identifier and number over any alphabet, in code, comments and strings, with and without lowercasing and number splitting',
  'Tests sample a dozen identifiers; the boundaries between character classes (acronyms, digits, underscores, non-ASCII letters) combine without limit.',
  ['codeprep/parse/subtokens.py','codeprep/tokens/word.py','codeprep/tokens/containers.py','codeprep/tokens/numeric.py','codeprep/prepconfig.py'],
  [('split_identifier','codeprep/parse/subtokens.py'),('Word.from_ / preprocessed_repr','codeprep/tokens/word.py'),('wrap_in_word_boundaries_if_necessary','codeprep/tokens/containers.py')],
  observe=['codeprep.api.text.basic'])
p('C04','Each filtering option does exactly what it says, in every combination',
  "Relative to the same call without it: no_com replaces each comment by one <comment>; no_str replaces each string literal by one <str-literal>; a maximum string length from 2 to 61 replaces exactly the literals longer than it (quotes included) by an empty literal; no_spaces removes exactly the newline and tab tokens; no_unicode replaces each word containing non-ASCII characters by <non-en> (in BPE, chars and full-string modes it replaces each run of non-ASCII characters within a word by one placeholder character). "
  "Everything else stays as it was, no_str wins over a maximum length, and the options compose without influencing one another.",
  ['inputs','configurations'],'every text x every subset of the filter options x every splitting mode',
  'Tests exercise the options mostly one at a time and on a single snippet; the product of options, modes and nested token kinds is never covered.',
  ['codeprep/prepconfig.py','codeprep/api/common.py','codeprep/tokens/containers.py','codeprep/tokens/noneng.py','codeprep/noneng.py','codeprep/tokens/whitespace.py'],
  [('get_types_to_be_repr','codeprep/prepconfig.py'),('StringLiteral.non_preprocessed_repr','codeprep/tokens/containers.py'),('create_str_value','codeprep/api/common.py'),('replace_non_ascii_seqs','codeprep/noneng.py')],
  observe=['codeprep.api.text.*'])
p('C05','BPE encoding is lossless and applies the merge list canonically',
  "In BPE mode, the subtokens of every word concatenate back to the word (with its final </t> removed), for every word including those with the escape character, non-ASCII characters, and whitespace placeholders; chars mode gives single characters, and operators, keywords, placeholders and the number literals 0 and 1 are never split. "
  "The segmentation is the canonical one: starting from characters, repeatedly apply the earliest merge in the list that matches anywhere to all its non-overlapping occurrences from left to right until none applies; for a custom code id with n merges only the first n merges count, and nothing else about the id, the call order or other words in the text matters.",
  ['inputs','programs'],'every word and every merge list (predefined or custom, any prefix length)',
  'Tests encode a few words with two shipped merge lists; priority inversions, overlapping repeats, escapes and prefix limits need arbitrary merge lists and words.',
  ['codeprep/bpepkg/bpe_encode.py','codeprep/bpepkg/merge.py','codeprep/pipeline/to_repr.py','codeprep/pipeline/bperegistry.py'],
  [('encode','codeprep/bpepkg/bpe_encode.py'),('escape/unescape','codeprep/bpepkg/bpe_encode.py'),('read_merges','codeprep/bpepkg/merge.py'),('init_bpe_data','codeprep/pipeline/to_repr.py')],
  observe=['codeprep.api.text.bpe','codeprep.api.text.chars'])
p('C06','Keywords, operators and punctuation are atomic and reported as such',
  "In every mode each keyword, operator, punctuation mark, special token and each retained newline or tab is one whole token, never wrapped, split, lowercased or altered. "
  "The set of non-processable tokens returned with the metadata is exactly the set of those tokens occurring in the output (outside whole-literal words), plus the quote that stands for an over-long literal.",
  ['inputs','configurations'],'every text x every mode and option set',
  'Only fixed snippets are tested; the set has to be exact for every mix of token kinds, nested in comments and strings as well.',
  ['codeprep/tokens/word.py','codeprep/parse/matchers.py','codeprep/preprocess/metadata.py','codeprep/tokens/containers.py'],
  [('NonProcessibleToken','codeprep/tokens/word.py'),('wrap_in_metadata_for_full_word','codeprep/tokens/rootclasses.py'),('OperatorMatcher/KeywordMatcher','codeprep/parse/matchers.py')],
  observe=['metadata.nonprocessable_tokens'])
p('C07','Text preprocessing depends only on its arguments, not on earlier calls',
  "The result of preprocessing a text is a function of the text and the options alone: it is the same as in a fresh process whatever calls came before it, with whatever modes, BPE codes or failures, and repeating a call gives an equal result. "
  "Skipping re-initialisation of BPE data changes nothing as long as the same BPE code id is used, and results already returned never change afterwards.",
  ['histories'],'every sequence of calls of the text functions in one process, including failing calls and calls that skip BPE re-initialisation',
  'Each test makes one call and looks at one result; leftover module-level state shows only in particular call sequences.',
  ['codeprep/pipeline/to_repr.py',T,'codeprep/bpepkg/bpe_encode.py','codeprep/preprocess/metadata.py'],
  [('init_bpe_data','codeprep/pipeline/to_repr.py'),('get_bpe_subwords','codeprep/bpepkg/bpe_encode.py')],
  state=[('global_bpe_data','BPE merges and cache loaded by the last initialisation','codeprep/pipeline/to_repr.py')],
  observe=['codeprep.api.text.*'])
p('C08','Preprocessing a corpus equals preprocessing each selected file',
  "Preprocessing a directory (or a single file) produces exactly one output file per regular non-link file whose name ends with one of the requested extensions (all files if none requested), at the same relative path plus a suffix, for any file names and nesting and any number and scheduling of worker processes. "
  "Each output file is one line: the tokens that text preprocessing with the same options (language taken from the file's extension) gives for the file's content (a final newline being kept as a token before <EOF>), UTF-8 or else Latin-1, escaped, space-separated and followed by <EOF>; the source tree is never modified. File names are those whose suffixed form the file system can hold.",
  ['inputs','schedules','configurations'],'every directory tree, file name, file content, extension filter, option set and worker schedule',
  'One fixed three-file corpus is tested with an unspecified schedule.',
  ['codeprep/pipeline/parse_projects.py','codeprep/pipeline/to_repr.py','codeprep/pipeline/dataset.py','codeprep/dirutils.py','codeprep/fileutils.py','codeprep/api/corpus.py'],
  [('walk_and_save','codeprep/dirutils.py'),('preprocess_and_write','codeprep/pipeline/parse_projects.py'),('preprocess_and_write','codeprep/pipeline/to_repr.py'),('get_new_file_name','codeprep/pipeline/dataset.py')],
  observe=['codeprep.api.corpus.*','output directory'])
p('C09','What is written to disk reads back as the same data',
  "Token lists, vocabularies, merge lists, merge caches, and file lists read back exactly as they were written, for every token (any Unicode, control characters, backslashes, delimiters, line separators) and every file name (any bytes). "
  "On disk each record stays on its own line and each token of a line is one space-separated field.",
  ['inputs'],'every token, frequency, merge list and file name',
  'Tests use a few ASCII tokens; the formats rely on escaping that has to work for every character.',
  ['codeprep/util.py','codeprep/pipeline/vocab.py','codeprep/bpepkg/merge.py','codeprep/bpepkg/cache.py','codeprep/dirutils.py','codeprep/pipeline/dataset.py'],
  [('to_literal_str/to_non_literal_str','codeprep/util.py'),('_dump_vocab_dict/_load_vocab_dict','codeprep/pipeline/vocab.py'),('dump_merges/read_merges','codeprep/bpepkg/merge.py'),('dump_bpe_cache/read_bpe_cache','codeprep/bpepkg/cache.py'),('get_all_files','codeprep/pipeline/dataset.py')],
  observe=['the dump/load functions','files in the user config/cache directories'])
p('C10','Caching never changes results',
  "Whatever earlier runs happened, with whatever options, extensions, output paths, vocabulary requests and dataset edits in between (each edit moving the modification time of the file and directories it touches to a new, latest second), a preprocessing run produces the output, and if asked the vocabulary, that the same run would produce with empty caches on the dataset's current content. "
  "Outputs already produced for other options, extensions or output paths stay intact, and a repeated identical run leaves the output unchanged.",
  ['histories','configurations'],'every sequence of corpus runs interleaved with adding, editing and deleting files and with deleting outputs',
  'Tests run one configuration per fresh cache; staleness needs multi-step histories.',
  ['codeprep/pipeline/stages.py','codeprep/pipeline/dataset.py','codeprep/dirutils.py','codeprep/api/corpus.py'],
  [('run_until_preprocessing/run_until_vocab','codeprep/pipeline/stages.py'),('get_timestamp','codeprep/dirutils.py'),('is_path_outdated/archive_path','codeprep/pipeline/dataset.py')],
  state=[('dataset directories','caches keyed by name, modification time, extensions and options','codeprep/pipeline/dataset.py'),('.lastmodif markers','a stage finished','codeprep/pipeline/dataset.py')],
  observe=['output directory','vocabulary file'])
p('C11','An interrupted preprocessing run is completed correctly by rerunning it',
  "If a preprocessing run is killed at any moment, rerunning the same command succeeds and gives exactly the output that an uninterrupted run would have given. "
  "A final output file is never visible with partial content, whatever the moment of the kill.",
  ['crash_points'],'every kill point among the file-system operations of parsing and preprocessing, in one or several successive runs',
  'No test interrupts a run.',
  ['codeprep/pipeline/parse_projects.py','codeprep/pipeline/to_repr.py','codeprep/pipeline/dataset.py','codeprep/pipeline/stages.py'],
  [('.part file then rename','codeprep/pipeline/parse_projects.py'),('.part file then rename','codeprep/pipeline/to_repr.py'),('set_path_ready','codeprep/pipeline/dataset.py')],
  observe=['output directory after kill and rerun'])
p('C12','The vocabulary counts every token occurrence exactly once',
  "For every preprocessed corpus, the vocabulary maps each token to its exact number of occurrences over all output files, lists it once, most frequent first, and its reported size is the number of distinct tokens. "
  "This holds for any number of files and cores, any distribution of files over partial vocabularies and any scheduling of the merging processes, all of which terminate.",
  ['inputs','schedules'],'every multiset of token files, number of mergers, chunking and interleaving of merger steps',
  'No test runs the parallel merge with more than an accidental schedule.',
  ['codeprep/pipeline/vocab.py','codeprep/util.py'],
  [('VocabMerger.run','codeprep/pipeline/vocab.py'),('create_chunk_queue/mapify_tasks','codeprep/pipeline/vocab.py'),('AtomicInteger','codeprep/util.py'),('merge_dicts_','codeprep/util.py')],
  state=[('tasks queues','partial vocabularies per chunk','codeprep/pipeline/vocab.py'),('chunk queue','one ticket per merge, then one stop mark per process','codeprep/pipeline/vocab.py')],
  observe=['vocab and vocabsize files'])
p('C13','Vocabulary calculation survives a kill at any point',
  "If vocabulary calculation is killed at any moment, calculating it again gives exactly the vocabulary of an uninterrupted calculation: nothing is counted twice, nothing is lost, and no incomplete vocabulary is ever taken for a finished one. "
  "This holds for repeated kills as well.",
  ['crash_points','schedules'],'every kill point among the file-system operations of vocabulary calculation (partial dumps, merges, final write, clean-up), repeated kills included',
  'No test interrupts the calculation; recovery code is not exercised at all.',
  ['codeprep/pipeline/vocab.py','codeprep/pipeline/stages.py'],
  [('finish_file_dumping/load_partial_vocabs','codeprep/pipeline/vocab.py'),('ready marker','codeprep/pipeline/vocab.py'),('write_vocab','codeprep/pipeline/vocab.py')],
  state=[('part_vocab directory','partial vocabularies and half-finished merges','codeprep/pipeline/vocab.py')],
  observe=['vocab file after kill and rerun'])
p('C14','Learned merges are the most frequent pairs, and outputs agree with them',
  "Learning n merges from a vocabulary yields a list in which every merge is, at its turn, a pair of adjacent symbols with the highest frequency over the current segmentation of the vocabulary, recorded with exactly that frequency; it stops early only when no pair is left. "
  "The resulting segmentation of every word is what encoding the word with the learned merges gives, joins back to the word and keeps its frequency, and the resulting subword vocabulary is the exact count of subwords.",
  ['inputs'],'every word-frequency vocabulary and every number of merges',
  'A few tiny vocabularies are tested; incremental pair counts can drift only for particular overlaps, repeats and escapes.',
  ['codeprep/bpepkg/bpe_learn.py','codeprep/util.py','codeprep/bpepkg/merge.py','codeprep/pipeline/bpelearner.py'],
  [('do_merges/merge_vocab/get_stats','codeprep/bpepkg/bpe_learn.py'),('PriorityCounter','codeprep/util.py')],
  state=[('pair counts','priority queue of pair frequencies','codeprep/util.py')],
  observe=['do_merges','files written by learn-bpe'])
p('C15','Learning BPE codes can be resumed, repeated and killed safely',
  "For any sequence of learn-bpe runs on a dataset, asking for more merges extends the longest suitable learned list (which is kept as its prefix) with merges that are right for the vocabulary as already segmented; asking again or for fewer never changes or removes what was learned, and each result directory is named after the number of merges it holds. "
  "A run killed at any moment never leaves a result that is later used although it is incomplete: rerunning gives a complete valid result.",
  ['histories','crash_points'],'every sequence of merge counts, and every kill point of a learning run',
  'Tests learn once per dataset with mocked stages; no test resumes on disk or interrupts.',
  ['codeprep/pipeline/bpelearner.py','codeprep/pipeline/bperegistry.py','codeprep/bpepkg/merge.py'],
  [('run/prepare_vocabs/save_results','codeprep/pipeline/bpelearner.py'),('get_max_merges','codeprep/pipeline/bperegistry.py'),('MergeList.__add__','codeprep/bpepkg/merge.py')],
  state=[('bpe directory of a dataset','one subdirectory per learned number of merges','codeprep/pipeline/bpelearner.py')],
  observe=['files written by learn-bpe'])
p('C16','A BPE code id always resolves to its own merges',
  "Every dataset's BPE codes get an id that no other codes have (derived from the dataset name unless given explicitly), keep it through later runs, and id-n resolves exactly to the first n merges learned for that id whenever at least n merges are available from one learned list, from the smallest such list. "
  "Ids that are unknown, malformed or ask for more merges than learned are rejected rather than resolved to something else.",
  ['histories','inputs'],'every sequence of learning runs over datasets with arbitrary names and option suffixes, and every id-n string',
  'Tests use two or three plain names; names are used in patterns and paths where arbitrary characters matter.',
  ['codeprep/pipeline/bperegistry.py','codeprep/pipeline/dataset.py','codeprep/cli/impl.py','codeprep/bpepkg/bpe_config.py'],
  [('create_new_id_from','codeprep/pipeline/bperegistry.py'),('parse_merge_list_id','codeprep/pipeline/bperegistry.py'),('get_min_merges/get_max_merges','codeprep/pipeline/bperegistry.py'),('CustomBpeConfig.create','codeprep/pipeline/bperegistry.py')],
  state=[('.name files','id of a dataset bpe directory','codeprep/pipeline/bperegistry.py')],
  observe=['codeprep.pipeline.bperegistry','learn-bpe'])
p('C17','Command line and Python API agree; invalid option sets are rejected',
  "Every accepted command line for text gives the tokens that the corresponding Python function gives for the corresponding options, and a command line for a path writes the corpus that the corresponding function writes. "
  "Different option sets that can give different results have different encoded configurations, an encoded configuration decodes to itself, and option combinations documented as unsupported are rejected instead of producing output.",
  ['configurations','inputs'],'every combination of the command-line options of nosplit, chars, basic and bpe, and every encoded configuration string',
  'Tests check a dozen argument vectors against mocked back ends.',
  ['codeprep/cli/spec.py','codeprep/cli/impl.py','codeprep/api/common.py','codeprep/prepconfig.py',T,'codeprep/api/corpus.py'],
  [('create_prep_config_from_args','codeprep/cli/impl.py'),('create_prep_config','codeprep/api/common.py'),('PrepConfig','codeprep/prepconfig.py')],
  observe=['codeprep command','codeprep.api.*'])
p('C18','Token iterators partition the subtokens by word',
  "For every subtoken list and consistent word boundaries, iterating over full tokens yields one item per word, formatted from exactly that word's subtokens in order, and iterating over subtokens yields every subtoken once in order; with indices each item carries the index of the word it belongs to. "
  "Boundaries that do not start at 0 or do not end at the number of subtokens are rejected before anything is yielded, and the metadata check accepts a BPE token list exactly when its word-end marks agree with the boundaries.",
  ['inputs'],'every subtoken list, boundary list and formatting function',
  'A handful of two-word docstring examples.',
  ['codeprep/subtokens.py','codeprep/preprocess/metadata.py'],
  [('SubtokenIterator/FullTokenIterator','codeprep/subtokens.py'),('check_metadata_validity','codeprep/preprocess/metadata.py')],
  state=[('current_index/current_full_word','iterator position','codeprep/subtokens.py')],
  observe=['codeprep.subtokens'])
p('C19','The corpus size is the number of tokens in the corpus',
  "The size reported for a preprocessed corpus is the total number of tokens in its output files, for any files and number of workers, and equals the sum of the vocabulary's frequencies. "
  "It stays right for the corpus it was asked for whatever other corpora, option sets and dataset changes came before.",
  ['inputs','histories','schedules'],'every corpus and every history of runs and size queries',
  'Three doctests on one fixed corpus with caching suppressed.',
  ['codeprep/api/corpus.py','codeprep/pipeline/dataset.py'],
  [('get_corpus_size','codeprep/api/corpus.py'),('path_to_prep_corpus_size_file','codeprep/pipeline/dataset.py')],
  observe=['PreprocessedCorpus.get_corpus_size'])
p('C20','Non-BPE and BPE vocabularies split the corpus vocabulary exactly',
  "When BPE codes are learned on a dataset, the non-BPE vocabulary is exactly the set of non-processable tokens occurring in its files plus the placeholders, whatever the file names, sizes and worker schedule, and BPE is learned from exactly the remaining vocabulary with its exact frequencies. "
  "Loading the vocabularies of a code id gives all = non-BPE + base as learned for that very id, with each token exactly as it occurs in the text.",
  ['inputs','schedules'],'every dataset (equal file names in different directories included), option suffix and worker schedule',
  'Tests mock the vocabularies; the per-file gathering across processes is not tested.',
  ['codeprep/pipeline/to_repr.py','codeprep/pipeline/vocabloader.py','codeprep/preprocess/metadata.py','codeprep/pipeline/bpelearner.py','codeprep/bpepkg/bpe_learn.py'],
  [('save_metadata','codeprep/preprocess/metadata.py'),('gather_non_bpe_vocab','codeprep/pipeline/vocabloader.py'),('separate_vocabs','codeprep/bpepkg/bpe_learn.py'),('get_base_vocab_dir','codeprep/pipeline/bperegistry.py')],
  observe=['codeprep.pipeline.vocabloader','vocabulary files'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+'\n')
