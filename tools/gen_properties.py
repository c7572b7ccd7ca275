#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand after editing)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
      mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=list(observe),hook_needed=hook)))
EX="src/cmd/util.rs (DataExecutor, process_file)"
p("C01","topk reports exactly the k most frequent n-grams with exact counts",
 "When the hash table is large enough that n-grams do not collide, `wimbd topk` reports exactly the k most frequent n-grams among those whose total count over all selected documents is greater than --threshold (all of them if there are fewer than k). Each is listed once with its exact total count and rank, in descending order of count, no matter how the documents are spread over files or how many workers are used.",
 ["inputs","configurations","schedules"],"every corpus (any split of documents over files, gzip members, null/missing texts), every n, k, threshold, number of hashes, counter width and worker count",
 "The repository tests only insert six items into the collection and increment the counter twice; no test runs the command, merges files or uses more than one thread.",
 ["src/cmd/topk.rs","src/ngrams/counter.rs","src/ngrams/topk.rs","src/cmd/util.rs"],
 [("global counts decide what enters the per-file top-k; per-file lists are merged by the main thread","src/cmd/topk.rs"),("count/ngram set bounded to k","src/ngrams/topk.rs")],
 [("count_array","one cell per hash and n-gram, shared by all workers","src/ngrams/counter.rs"),("local_topk/topk","k best (count, n-gram) pairs per file / overall","src/cmd/topk.rs"),("min_count","lower bound published to the workers","src/ngrams/topk.rs")],
 ["stdout of `wimbd topk --json`"])
p("C02","botk reports exactly the k least frequent n-grams with exact counts",
 "When the hash table is large enough that n-grams do not collide, `wimbd botk` reports exactly the k least frequent n-grams among those whose total count is below --threshold (all of them if there are fewer than k), each once with its exact total count and rank, in ascending order of count. This holds for the default threshold as well, and no matter how documents are spread over files or how many workers are used. With --p-keep below 1 n-grams may be left out, but what is listed is just as exact.",
 ["inputs","configurations","schedules"],"every corpus, every n, k, threshold, number of hashes and worker count",
 "No test runs botk at all (its two passes, inverse counts and thresholds are untested).",
 ["src/cmd/botk.rs","src/ngrams/counter.rs","src/ngrams/topk.rs"],
 [("first pass decrements from u32::MAX, second pass ranks by inverse count","src/cmd/botk.rs"),("barrier between the passes","src/cmd/util.rs (join)")],
 [("ngram_counts","inverse counts","src/cmd/botk.rs")],["stdout of `wimbd botk --json`"])
p("C03","Results do not depend on thread scheduling",
 "For the same files and options (and no hash collisions) every subcommand reports the same result for every number of workers and for every interleaving of the worker threads with each other and with the thread that collects and prints the results. In particular nothing that a worker found is lost, truncated or counted twice when jobs finish early, late, or all at once.",
 ["schedules","configurations"],"every schedule of the pool, the channel between workers and collector and the final report; 1..many workers and files",
 "No test starts more than one thread or runs a subcommand; the interleavings that lose results need all workers to finish at a particular moment of the collector's loop.",
 ["src/cmd/topk.rs","src/cmd/botk.rs","src/cmd/search.rs","src/cmd/stats.rs","src/cmd/count.rs","src/cmd/unique.rs","src/cmd/util.rs"],
 [("collector reads the channel until all jobs are done","src/cmd/topk.rs, botk.rs, search.rs"),("thread pool join before reporting",EX)],
 [("channel","results on the way from jobs to the collector","src/cmd/topk.rs"),("pool queue/active","jobs not finished yet",EX)],["stdout and exit status of every subcommand under a controlled scheduler"])
p("C04","N-gram counts are never reported too low",
 "However small the hash table is and however many threads count at the same time, a count that topk or botk reports for an n-gram is never below its true total (short of the documented cap), and topk leaves out an n-gram above the threshold only if its true total does not exceed the smallest count in a full list. In the library, an increment never returns less than the number of increments of that n-gram that have completed, including itself.",
 ["inputs","schedules","configurations"],"every table size down to one cell, number of hashes, seed, corpus and interleaving of the cell updates of several threads",
 "The only counter test increments two n-grams once each in one thread and checks nothing about collisions, minima or concurrent updates.",
 ["src/ngrams/counter.rs","src/cmd/topk.rs","src/cmd/botk.rs"],
 [("minimum over the cells of all hash functions after updating all of them","src/ngrams/counter.rs (increment, max_count)")],
 [("count_array","cells shared between colliding n-grams","src/ngrams/counter.rs")],["NgramCounter::increment/decrement/max_count results","counts printed by topk and botk with a small --size"])
p("C05","N-gram counters saturate instead of wrapping",
 "A counter that reaches the largest value of its integer type stays there on further increments, and one that is decremented below zero stays at zero, for every amount, integer width and interleaving of threads. No operation ever returns or leaves behind a wrapped-around value, and updates to other n-grams are unaffected.",
 ["schedules","histories","inputs"],"all histories of increments, decrements and reads by any number of threads near the bounds of u8, u16, u32 and u64",
 "No test brings a counter near its bounds, and a wrapped value is visible only in the window between two instructions of another thread.",
 ["src/ngrams/counter.rs"],[("capped update of a cell","src/ngrams/counter.rs (increment, decrement)")],
 [("count_array","atomic cells","src/ngrams/counter.rs")],["NgramCounter::increment/decrement/max_count results"])
p("C06","The top-k collection keeps the k largest latest counts",
 "After any sequence of inserts into a top-k collection (same n-gram repeatedly, rising or falling counts, ties), draining it returns, in descending order and without duplicates, what a full ranking of the highest counts accepted so far would give: at most k n-grams, none of them displaced by a smaller (count, n-gram) pair. The published minimum count never lets an n-gram be ignored that belongs to the k largest, and after a drain the collection behaves like a new one.",
 ["histories"],"every history of inserts and drains with any k, n-grams and counts",
 "The unit test replays one fixed history of six inserts with distinct counts; ties, evictions, re-insertions and drains are not covered.",
 ["src/ngrams/topk.rs"],[("ordered set of (count, n-gram) plus a map from n-gram to count","src/ngrams/topk.rs")],
 [("topk, ngrams, min_count, min_count_atomic","ranking, index and published bound that must stay in step","src/ngrams/topk.rs")],["TopKNgrams::insert, drain, min_count"])
p("C07","stats totals are exact",
 "`wimbd stats` reports exactly the number of documents (JSON lines, with or without text), the number of tokens, and the number of bytes of the JSON lines over all selected files, and the exact largest and smallest number of tokens of a document with text. Splitting or reordering the documents over files, or changing the number of workers, does not change them.",
 ["inputs","schedules","configurations"],"every corpus, split over files and worker count, with null, missing and empty texts",
 "No test runs stats.",["src/cmd/stats.rs","src/cmd/util.rs"],
 [("per-file totals merged atomically when a file is done","src/cmd/stats.rs")],
 [("total_tokens, total_documents, document_max_tokens, document_min_tokens","global totals","src/cmd/stats.rs"),("total_bytes","sum over finished files",EX)],["stdout of `wimbd stats --json`"])
p("C08","stats lists exactly the longest and shortest documents",
 "The list of longest (shortest) documents that `wimbd stats` reports contains every document with text whose token count equals the reported maximum (minimum), each exactly once with its file, 1-based line number and token count, and no other document. This holds for every split over files and every interleaving of the workers.",
 ["inputs","schedules"],"every corpus and schedule, including ties within and across files and maxima that grow while other files are merged",
 "No test runs stats; the lists are pruned and merged by concurrent callbacks.",["src/cmd/stats.rs"],
 [("merge and prune of document pointers under a lock","src/cmd/stats.rs")],
 [("max_token_documents, min_token_documents","candidate pointers","src/cmd/stats.rs")],["stdout of `wimbd stats --json`"])
p("C09","count reports the exact number of occurrences of each search phrase",
 "For each search string `wimbd count` reports exactly the number of positions in the selected documents at which its token sequence occurs, counting overlapping occurrences, matching whole tokens case-sensitively and never across documents. The count of one string does not depend on which other strings are searched at the same time.",
 ["inputs","schedules","configurations"],"every corpus and every set of (non-empty) search strings of any lengths, worker count and split over files",
 "No test runs count.",["src/cmd/count.rs","src/tokens.rs"],
 [("comparison of every window of tokens with every search string","src/cmd/count.rs")],[("counts","one shared counter per string","src/cmd/count.rs")],["stdout of `wimbd count --json`"])
p("C10","search counts and locates every match",
 "For each pattern `wimbd search` reports exactly the number of (leftmost, non-overlapping) regex matches in the texts of the selected documents; with --with-locations it reports for every file and 1-based line exactly those matches with the document's text and their byte offsets. With --locations-limit L it reports min(L, number of matches) of those locations per pattern while the counts stay exact.",
 ["inputs","schedules","configurations"],"every corpus, set of patterns, limit, worker count and split over files (also the same file given twice)",
 "No test runs search.",["src/cmd/search.rs"],
 [("per-file match lists sent to the collector","src/cmd/search.rs"),("shared counter decides whether a location is still within the limit","src/cmd/search.rs")],
 [("counts, match_locations","results per pattern","src/cmd/search.rs")],["stdout of `wimbd search --json`"])
p("C11","unique estimates the number of distinct n-grams",
 "As long as the table is only sparsely filled, the number that `wimbd unique` reports is the number of distinct n-grams in the selected documents up to a small relative error (2% plus 1), whatever the number of hash functions, the seed, how often n-grams repeat (also more than 255 times), the split over files and the number of workers.",
 ["inputs","configurations","schedules"],"every corpus with few distinct n-grams compared to the table, every --hashes, --seed, worker count and split",
 "No test runs unique.",["src/cmd/unique.rs","src/ngrams/counter.rs"],
 [("number of non-zero cells converted to a number of n-grams","src/cmd/unique.rs"),("u8 cells that saturate","src/ngrams/counter.rs")],
 [("count_array","u8 cells","src/ngrams/counter.rs")],["stdout of `wimbd unique --json`"])
p("C12","A failed input never yields a result",
 "If a selected file is missing, cannot be read, is not valid gzip or is cut off, or contains a line that is not a valid JSON object (with a string or null text) or not valid UTF-8, then every subcommand exits with a non-zero status and writes no result to stdout or to the output file. A zero exit status therefore means that every selected line of every selected file has been counted.",
 ["fault_sequences","inputs","schedules"],"every kind, position and file of a fault, every subcommand, worker count and schedule",
 "No test exercises an error path; the failure is found in a worker thread while others still run and deliver partial results.",
 ["src/cmd/util.rs","src/io.rs","src/cmd/*.rs"],[("early_exit flag, recorded error, check in join",EX)],
 [("early_exit, error, panic_count","failure seen by any job",EX)],["exit status, stdout and output file"])
p("C13","stats retries a failed file without counting anything twice",
 "`wimbd stats` processes a file again from its beginning after a transient failure, up to two times, and its result is then the same as if no failure had happened: nothing of an aborted attempt is counted. A third failure of the same file makes the command fail; failures of other files do not use up its attempts, and the other subcommands fail at the first failure.",
 ["fault_sequences","schedules"],"every sequence of open and read failures at every position of every file, with any number of workers",
 "No test injects a failure.",["src/cmd/util.rs","src/cmd/stats.rs"],
 [("retry loop around process_file with a fresh context",EX)],[("retries, error_count","failed attempts of the file / of all files",EX)],["exit status and stdout of `wimbd stats --json` under injected I/O errors"])
p("C14","Every run terminates",
 "Every subcommand terminates for every schedule: the collector does not wait for results that never come, workers do not stay blocked on delivering results to a collector that has given up, and no error, panic or full channel leaves the process hanging or spinning.",
 ["schedules","fault_sequences"],"every schedule, with and without failing files, with more results than the channel holds",
 "No test starts the pool; a hang needs a failure while workers wait for room in the channel, or an unlucky order of finishing.",
 ["src/cmd/util.rs","src/cmd/topk.rs","src/cmd/botk.rs","src/cmd/search.rs"],[("collection ends when all senders are gone","src/cmd/topk.rs, botk.rs, search.rs"),("pool join",EX)],
 [("channel, senders","bounded channel and the jobs that hold a sender","src/cmd/topk.rs")],["termination of the process under a controlled scheduler"])
p("C15","Output files are complete and existing ones are protected",
 "With -o/--out an existing output file is never changed unless --force is given; with --force (or a new file) a successful run leaves exactly the records of this run in it, one JSON object per line, the same as --json prints, whatever the file contained before. Missing parent directories are created, and for topk and botk a directory (or a path without extension) gets one file whose name depends only on the options. A run whose records cannot all be written, to the output file or to the standard output, fails; one whose output merely takes them in pieces or with interruptions does not.",
 ["histories","configurations"],"every sequence of runs with different options, result sizes and pre-existing content, and every point at which the output stops taking bytes",
 "No test writes an output file.",["src/util.rs","src/cmd/topk.rs","src/cmd/botk.rs","src/cmd/count.rs","src/cmd/search.rs","src/cmd/stats.rs"],
 [("existence check, truncation and creation","src/util.rs"),("file name for directories","src/cmd/topk.rs, botk.rs (get_output_file)")],
 [("output file","records of the latest successful run","file system")],["file system and stdout after each run"])
p("C16","Exactly the selected files and lines are processed",
 "A directory argument stands for all files below it whose names match *.json*.gz in alphabetical order, whatever characters its own name contains, and a directory without such files is an error; --file-limit F then keeps the first F files and --limit L the first L lines of each of them. All subcommands process exactly these lines, each once per time its file is listed, with or without progress display.",
 ["inputs","configurations"],"every directory tree, list of arguments, --limit, --file-limit, --quiet and worker count (also more than 32)",
 "No test expands directories or uses the limits; four variants of the reading loop exist depending on limit and progress display.",
 ["src/cmd/util.rs","src/cmd/*.rs"],[("expand_dirs","src/cmd/util.rs"),("take(limit) in each variant of the loop","src/cmd/util.rs (process_file)")],
 [("paths","selected files in order","src/cmd/*.rs (main)")],["results of all subcommands"])
p("C17","The reader yields every line of a gzip file exactly once and intact",
 "Iterating over a compressed file yields exactly its lines in order, each byte-for-byte including its line terminator (if any), for any number of gzip members, any line lengths and empty lines, and a line that the caller keeps is never changed by reading on. Data that is cut off, corrupt or not UTF-8 is reported as an error rather than as the end of the file or as different lines.",
 ["inputs","histories"],"every content, member structure and line length, every pattern of keeping and dropping lines, every truncation point",
 "The reader has no tests; it reuses its buffer unless the caller still holds the previous line.",
 ["src/io.rs"],[("buffer is reused only if no other reference exists","src/io.rs (next)"),("multi-member decoder","src/io.rs (open)")],
 [("buf","line buffer shared with the caller","src/io.rs")],["GzBufReader iterator"])
p("C18","A seed makes results reproducible across runs",
 "With the same --seed, files and options (one worker), topk, botk and unique print identical results in every process, even when the hash table is so small that counts are affected by collisions; different seeds, any u64 value included, are all accepted. unique is reproducible with any number of workers.",
 ["configurations","inputs"],"every seed, table size and corpus, across processes",
 "The only test with a seed uses it within one process and ignores the result.",["src/ngrams/counter.rs","src/cmd/topk.rs","src/cmd/botk.rs","src/cmd/unique.rs"],
 [("hash functions derived from the seed","src/ngrams/counter.rs (new)"),("seeded shuffle of the files","src/cmd/botk.rs")],[("hash_builders","one keyed hash per function","src/ngrams/counter.rs")],["stdout of repeated runs"])
p("C19","N-grams are exactly the windows of a document's tokens",
 "The n-grams of a text are all windows of n consecutive tokens in order, each exactly once, none if there are fewer than n tokens, and never spanning two documents; this holds alike for the library iterator and for topk, botk and unique. Tokens are the Unicode word segments of the text that are not purely whitespace, in order and unchanged.",
 ["inputs"],"every text (all scripts, controls, combining marks) and every n >= 1",
 "Tests cover a handful of English strings and window sizes on the library iterator only; the commands have their own window code.",
 ["src/ngrams/mod.rs","src/tokens.rs","src/cmd/topk.rs","src/cmd/botk.rs","src/cmd/unique.rs"],
 [("sliding window","src/ngrams/mod.rs and src/cmd/{topk,botk,unique}.rs"),("whitespace filter","src/tokens.rs")],
 [("memory / ngram_deque","the last tokens of the current document","src/ngrams/mod.rs, src/cmd/*.rs")],["ngrams() and tokenize() in the library; counts of the commands"])
p("C20","Deduplication keeps exactly one copy of every text",
 "With --keep_first_occurrence, deduplicate_by_hash.py keeps (or marks as not contaminated) exactly one of the documents with the same listed text over all shards, and all documents whose text is not listed, for any number of processes and any interleaving of them; every document with text appears in the output of its shard once, in order. The reported totals of matched documents agree with the output. Shards whose outputs would overwrite each other or the shards (the same file name in different directories, an output directory that holds the shards) are refused without losing anything.",
 ["schedules","inputs","configurations"],"every distribution of duplicates over shards, every blocklist (also empty or with repetitions), every number of processes and interleaving",
 "There are no tests for the Python tools.",["wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py","wimbd/text_and_url_overlaps/deduplicate.py"],
 [("check and set of the shared seen array under one lock","deduplicate_by_hash.py (process_shard)")],[("seen_array","one flag per listed hash, shared between processes","deduplicate_by_hash.py")],["output shards and stdout"])
p("C21","Decontamination marks exactly the listed documents",
 "Without --keep_first_occurrence, deduplicate_by_hash.py drops (or marks as contaminated) every document whose text's hash is in the blocklist and no other document, in all shards; decontaminate.py does so for exactly the texts that occur in the first set of files, and deduplicate.py builds its list from exactly the texts that occur more than once.",
 ["inputs","configurations"],"every pair of document sets, blocklist and number of processes",
 "There are no tests for the Python tools.",["wimbd/text_and_url_overlaps/decontaminate.py","wimbd/text_and_url_overlaps/deduplicate.py","wimbd/text_and_url_overlaps/helper_scripts/*"],
 [("hash, sort, uniq, key extraction pipeline","run_get_text_hashes.sh, get_just_keys.sh, get_duplicate_keys.sh"),("blocklist lookup","deduplicate_by_hash.py")],[("blocklist","hashes of the first set","tmp_dir/blocklist.txt")],["output shards"])
p("C22","Overlap lists are the intersections of their data sets",
 "For every combination of data sets the overlap list computed from their sorted hash lists contains exactly the hashes (or URLs) that occur in all of them, each once and sorted, also when a list is empty or results of an earlier run are in the directory. Where the names of the data sets would make two of the lists the same file (`a`, `b` and `a_and_b`) the run fails and leaves the lists of the data sets as they were. The duplicate statistics of each data set equal the number of documents and distinct hashes, in total and occurring more than once.",
 ["inputs","histories"],"every number of data sets, every contents, rerun in the same directory",
 "There are no tests for the Python tools.",["wimbd/text_and_url_overlaps/helper_scripts/run_combinations.py","wimbd/text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh","wimbd/text_and_url_overlaps/helper_scripts/get_duplicate_counts.py","wimbd/text_and_url_overlaps/helper_scripts/remove_count.sh"],
 [("powerset from small to large, merge with the last list","run_combinations.py")],[("overlap files","one per combination","sorted_uniq_dir")],["files written"])
p("C23","Retrieving all hits returns every matching document exactly once",
 "get_documents_containing_phrases with return_all_hits yields every matching document of the index exactly once, for any page size and any values of the sort field (also all equal), even if documents are added to the index between pages, and it terminates. Without return_all_hits it yields at most num_documents matching documents.",
 ["inputs","histories"],"every set of documents and sort values, page size and index changes between pages",
 "There are no tests for the Python tools; small indices fit in one page.",["wimbd/es/__init__.py"],
 [("point in time and search_after","wimbd/es/__init__.py (get_documents_containing_phrases)")],[("search_after","sort values of the last hit","wimbd/es/__init__.py")],["documents yielded, against a fake Elasticsearch server with the documented paging semantics"])
p("C24","Phrase counts are aligned with their phrases and filters are applied",
 "count_documents_for_each_phrase returns one number per phrase of any iterable (also none), in order, equal to the number of documents that contain it (all of its phrases with all_phrases), for every batch size and number of phrases and without sending more than batch_size phrases at once. Subset filters restrict every query (for c4 to its English subset), and no call modifies its arguments or affects later calls; counts over all or any phrases and total unigram occurrences agree with the documents in the index. get_indices lists exactly the indices that are neither hidden nor internal, with their numbers of documents and, if asked for, their fields.",
 ["inputs","histories"],"every list of phrases, batch size, filter, index and sequence of calls",
 "There are no tests for the Python tools.",["wimbd/es/__init__.py"],[("batches taken from one iterator, results appended in order","wimbd/es/__init__.py")],[("final_counts","results so far","wimbd/es/__init__.py")],["return values and requests, against a fake Elasticsearch server"])
p("C25","Map/reduce analyses do not depend on how the data is sharded",
 "For each of the map/reduce analyses (URLs, schemes, extensions, top-level domains, dates, lengths, unusual lengths, languages, PII, profanity by model and by word list, tokens per URL, link checks, random samples, sentiment means) the result after reducing is the sum (for sentiment: the mean) over the documents, for every split of the documents into shards, every order of the shards' outputs and every batch size: every document contributes exactly once and to its own category, every category is reported once, and a shard that cannot be read makes the run fail; the summary of the lengths of a data set (summarize.py) gives for tokens and for characters the share of every length among the documents with a text. PII is judged by the context of each occurrence itself; a URL that cannot be requested counts as one that does not exist; a text is one text whatever characters it contains; blank texts count nothing and texts over 99999 characters count as long where texts are classified; every word of the word list counts wherever it is a word of its own.",
 ["inputs","configurations","schedules"],"every split and order of shards, every batch size (also documents exactly filling a batch)",
 "There are no tests for the Python tools.",["wimbd/url_counts","wimbd/scheme_counts","wimbd/extension_counts","wimbd/high_level_domain_counts","wimbd/utterance_dates","wimbd/sentence_lengths","wimbd/language","wimbd/pii","wimbd/profanity","wimbd/url_per_tok_counts","wimbd/link_exists","wimbd/random_sample","wimbd/sentiment_coocurrence","wimbd/utils/utils.py"],
 [("map scripts print one line per item or per category; reduce scripts sum by key","wimbd/*/map_count.py, reduce_count.py")],[("inputs","current batch","wimbd/language/map_count.py")],["stdout of map | reduce"])
p("C26","Splitting a data set neither loses nor duplicates documents",
 "file_split.py cuts every file into n files that, concatenated in order, are the original lines, for any number of lines (also fewer than n) and any file and directory names; it writes nothing else and leaves its input alone. split_files.py puts every document into exactly one of train, valid and test with its content unchanged except for the added id, and the text alone (its SHA-1) decides both id and part, so that documents with the same text always end up in the same part; any number of them can run at once for files of the same directories.",
 ["inputs","configurations","schedules"],"every number of lines, n, and file and directory names; every order in which parallel runs create directories",
 "There are no tests for the Python tools.",["wimbd/utils/file_split.py","wimbd/utils/split_files.py"],[("chunk boundaries","wimbd/utils/file_split.py"),("hash of the text decides the part","wimbd/utils/split_files.py")],[("data","lines of the file","wimbd/utils/file_split.py")],["files written"])
p("C27","Indexing is idempotent and skips nothing but empty documents",
 "Indexing files creates exactly one document per line with non-empty text, under an id that depends only on the file name and line (or is the document's own id), with its text (cut to the maximal size) and its fields except the skipped ones; running it again, completely or after an interruption or with --skip n (which leaves out the first n documents with text), creates no duplicates and changes no existing document. After a successful run everything is there and the saved ids are, unabridged, the ids of exactly these documents in order; a server error other than an already existing document makes the run fail. Random access returns documents of the named index under the saved ids.",
 ["histories","fault_sequences","inputs"],"every sequence of complete and interrupted runs, documents with null or empty texts, server errors",
 "There are no tests for the Python tools.",["wimbd/indexing/index_json_files.py","wimbd/indexing/__init__.py","wimbd/es/random_access.py"],[("create operations with deterministic ids; 409 ignored","wimbd/indexing/index_json_files.py (make_action)")],[("index","documents by id","Elasticsearch")],["requests to and contents of a fake Elasticsearch server, ids file"])
p("C28","An interrupted download resumes without loss or duplication",
 "After any sequence of interrupted runs of the Hugging Face downloader followed by a complete one with the same batch size, the numbered files of each split contain every example of the split exactly once and in order, with the text field renamed. A file that carries a final name is always complete.",
 ["crash_points","histories","configurations"],"every point at which a run is interrupted (also within a file and with batches finished out of order), any batch size and number of workers",
 "There are no tests for the Python tools.",["wimbd/indexing/huggingface.py"],[("chunks of the stream starting at the first missing batch","wimbd/indexing/huggingface.py"),("rename after a batch is complete","wimbd/indexing/huggingface.py (_func)")],[("output files","finished batches","output_dir")],["files written"])
p("C29","Preparing a data set can be interrupted without losing or damaging anything",
 "The scripts in preparation/ (listing the files of The Stack, downloading and converting them one by one or with download.sh, converting mC4 records, combining adjacent mC4 files) may be killed, interrupted by the user or fail at any point. After any such runs a complete run leaves exactly one result per input, with all of its records in order in the documented format (id, text, metadata, language), and a list of URLs with all files of every language in order. A result under its final name is complete at every moment, results of earlier runs are kept, and missing or empty files are downloaded.",
 ["crash_points","fault_sequences","histories"],"every point at which a run of any of the scripts is ended, and every sequence of such runs",
 "There are no tests for the preparation scripts.",["preparation/stack/get_urls.py","preparation/stack/download_url.py","preparation/stack/download_url.sh","preparation/stack/download.sh","preparation/mc4/mc4.py","preparation/mc4/combine_adjacent_files.py"],
 [("write under another name, then os.replace","download_url.py, get_urls.py"),("skip what exists","download_url.sh, mc4.py, combine_adjacent_files.py"),("continue after the languages of the list","get_urls.py")],[("output file","results so far","output directory or bucket")],["files and objects after every run"])
p("C30","The contamination report counts exactly the contaminated examples",
 "corpus_contamination.py prints, and records together with the number of examples and of contaminated examples, the fraction of the examples of the given split of a benchmark for which some document of the given index contains the phrases of all given fields of the example. Every example counts once, also when examples are equal or several documents contain it; fields found in different documents do not count; for any number of examples (also beyond one batch of queries); for the c4 index only its English subset counts.",
 ["inputs","configurations"],"every benchmark (number of examples, fields, repetitions) and every index",
 "There are no tests for the Python tools.",["wimbd/es/corpus_contamination.py","wimbd/es/__init__.py (count_documents_for_each_phrase)"],
 [("batches of 60 phrases, results in order","wimbd/es/__init__.py"),("fields of one example are combined by zip","corpus_contamination.py (paired_contamination_percentage)")],[("final_counts","documents per example","wimbd/es/__init__.py")],["stdout and the recorded summary"])
p("C31","Examples of duplicates are the asked ones, with text and count, in order",
 "get_examples.py, given shards and a list of hashes, writes one line for each hash of the list that occurs in the shards, with a text that has this hash (a document whose text is null has the hash and text None) and, if the list has counts, with the count of the list, ordered by decreasing count as a number; never more than k lines, and all of them when there are no more than k. With --with_repeats the search ends after k documents whose hash is on the list. A list of counted URLs becomes one line for each URL, whatever characters it contains, ordered by decreasing count. The top examples of run_analysis.sh are 30 lines of the data set (all if it has fewer) such that no other line occurs more often, with their numbers of occurrences.",
 ["inputs","configurations"],"every list, shards, k, and data set",
 "There are no tests for the Python tools.",["wimbd/text_and_url_overlaps/helper_scripts/get_examples.py","wimbd/text_and_url_overlaps/helper_scripts/run_get_examples.sh","wimbd/text_and_url_overlaps/run_analysis.sh"],
 [("remove from the list what was found, stop at k","get_examples.py (find_hash_example)"),("sort -r on counts, head -n k","run_analysis.sh, run_get_examples.sh")],[("examples","one JSON object per line","outfile")],["files written"])
p("C32","The messages of a run are true",
 "The error with which a failing run ends names a selected file that is really damaged: one that is missing or whose processing failed for good, not one that was processed successfully after a repeated attempt; if the damage is a line that is not a valid JSON object, it gives the 1-based number of the first such line of that file. A run that succeeds reports as the number of processed JSON lines exactly the number of selected lines (in every pass), and as the number of recoverable errors exactly the number of failed attempts.",
 ["fault_sequences","schedules","inputs"],"every combination of damaged files and transient failures, any number of workers and every interleaving of them",
 "No test looks at an error message or at the messages of a run; which error is reported depends on the order in which the workers fail.",["src/cmd/util.rs (DataExecutor::execute_with_callback, join, process_file)","src/main.rs"],
 [("recorded error, replaced under its lock",EX),("total_lines counted per successful attempt",EX)],[("error, error_count, total_lines","what has failed and what has been done",EX)],["stderr, exit status"])
p("C33","With a pretrained tokenizer, all of its tokens are counted and no others",
 "With `--tokenizer NAME`, topk, botk, unique, count and stats give the results that they give for the built-in tokenizer, on the tokens that the tokenizer's normalizer, pre-tokenizer and model make of each document (and, for count, of each search string): every token of every document counts, however long the document is and whatever white space it begins or ends with, and nothing is added or removed. In particular the special tokens that a tokenizer puts around a text, and the truncation and padding settings stored with it, which are meant for feeding models, have no effect. `string` is the decoding of `tokens` by the tokenizer, without special tokens. A tokenizer that cannot be loaded, or that cannot tokenize one of the selected documents, makes the command fail without results.",
 ["inputs","configurations"],"every tokenizer file, every data set and every set of options",
 "No test uses a pretrained tokenizer.",["src/tokens.rs","src/cmd/topk.rs","src/cmd/botk.rs","src/cmd/unique.rs","src/cmd/count.rs","src/cmd/stats.rs","src/ngrams/mod.rs"],
 [("loading, encoding and decoding","src/tokens.rs (PretrainedTokenizer)"),("the branch of every command for pretrained tokenizers","src/cmd/{topk,botk,unique,count,stats}.rs")],[],["stdout, exit status, PretrainedTokenizer::tokenize/decode, ngrams()"])
p("C34","A run of the Python tools that cannot process all of its data fails",
 "deduplicate.py, decontaminate.py, run_analysis.sh, the run.sh scripts of the analyses and the single-process tools (text hashes, examples, duplicate counts, file_split, split_files) end with exit status 0 if and only if all of their input could be processed and their results be written: a missing, truncated or corrupt gzip file, a line that is not a JSON document (or lacks the field that the tool works on, or is not UTF-8), a program of a pipeline that is missing, or an output that cannot be written makes the run fail, wherever in the list of files, lines or steps it is (names of files and data sets are passed through a shell and so have no characters that are special to it); and a run whose inputs and outputs are all in order succeeds, however it is invoked (in one step or with a list built before).",
 ["inputs","fault_sequences","configurations"],"every set of files with damage of every kind at any place, every missing program and every unwritable output",
 "The few tests of the Python part run functions on intact data.",["wimbd/text_and_url_overlaps/","wimbd/url_counts/","wimbd/url_per_tok_counts/","wimbd/utils/","wimbd/pii/"],
 [("pipelines and their status","wimbd/text_and_url_overlaps/*.py, run_analysis.sh, helper_scripts/*.sh"),("reading documents","wimbd/*/map*.py, helper_scripts/*.py"),("run.sh of the analyses","wimbd/*/run.sh")],[],["exit status"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
