-------------------------------- MODULE Conf --------------------------------
(* Judges recorded cases: every case is an observation of the real code      *)
(* (input, options and what came out); Allowed says whether the              *)
(* specification permits it. One step per case, so that TLC's workers share  *)
(* the work.                                                                 *)
EXTENDS TopKOps, Regex, CounterHist, Faults, Selection, ReaderOps, Words, DedupOps, OverlapOps, ExamplesOps, EsOps, MapReduceOps, SplitOps, HfOps, IndexOps, PrepareOps, PretrainedOps, WritingOps, ToolRunOps, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

Docs(c) == SelectedDocs(c.files, c.listing, c.flimit, c.limit)
Files(c) == SelectedFiles(c.files, c.listing, c.flimit, c.limit)

Allowed(c) ==
    CASE c.kind = "topk" -> TopkAllowed(Docs(c), c.n, c.k, c.thr, c.out)
      [] c.kind = "botk" -> BotkAllowed(Docs(c), c.n, c.k, c.thr, c.out)
      [] c.kind = "botk-sampled" -> BotkSampledAllowed(Docs(c), c.n, c.k, c.thr, c.out) /\ Len(c.out) <= c.k
      [] c.kind = "drain" -> DrainAllowed(c)
      [] c.kind = "says" -> SaysAllowed(c)
      [] c.kind = "pretrained" -> PretrainedAllowed(c)
      [] c.kind = "written" -> WrittenAllowed(c)
      [] c.kind = "strings" -> StringsAllowed(c)
      [] c.kind = "pretrained-run" -> PretrainedRunAllowed(Docs(c), c)
      [] c.kind = "topk-low" -> NeverTooLow(Docs(c), c.n, c.k, c.thr, c.out)
      [] c.kind = "botk-low" -> BotkNeverTooLow(Docs(c), c.n, c.k, c.out)
      [] c.kind = "unique" -> UniqueAllowed(Docs(c), c.n, c.out)
      [] c.kind = "stats" -> StatsTotalsAllowed(Files(c), c.out)
      [] c.kind = "stats-lists" -> StatsListsAllowed(Files(c), c.out)
      [] c.kind = "search" -> SearchAllowed(c.files, c.listing, c.flimit, c.limit, c.patterns, c.withlocs, c.loclimit, c.out)
      [] c.kind = "search-lines" -> SearchLinesAllowed(c.files, c.listing, c.flimit, c.limit, c.patterns, c.withlocs, c.loclimit, c.out)
      [] c.kind = "blocklist" -> BlocklistAllowed(c)
      [] c.kind = "hist" -> HistAllowed(c.max, c.init, c.ops, c.finals, c.exact = 1)
      [] c.kind = "seq" -> SeqAllowed(c.max, c.init, c.ngrams, c.ops)
      [] c.kind = "outcome" -> OutcomeAllowed(c.files, c.listing, c.flimit, c.limit, c.status, c.records)
      [] c.kind = "retries" -> RetriesAllowed(c.plan, c.passes, c.retries, c.status, c.records)
      [] c.kind = "selection" -> SelectionAllowed(c)
      [] c.kind = "reader" -> ReaderAllowed(c)
      [] c.kind = "repro" -> \A i \in 1..Len(c.status) : c.status[i] = 0 /\ c.out[i] = c.out[1]
      [] c.kind = "tokens" -> TokensAllowed(c)
      [] c.kind = "windows" -> WindowsAllowed(c)
      [] c.kind = "dedup" -> DedupAllowed(c)
      [] c.kind = "clash" -> ClashAllowed(c)
      [] c.kind = "overlap" -> OverlapAllowed(c)
      [] c.kind = "overlap-names" -> NamesAllowed(c)
      [] c.kind = "examples" -> ExamplesCaseAllowed(c)
      [] c.kind = "es-hits" -> HitsAllowed(c)
      [] c.kind = "es-counts" -> CountsAllowed(c)
      [] c.kind = "contamination" -> ContaminationAllowed(c)
      [] c.kind = "mapreduce" -> MapReduceAllowed(c)
      [] c.kind = "summary" -> SummaryAllowed(c)
      [] c.kind = "means" -> MeansAllowed(c)
      [] c.kind = "file-split" -> FileSplitAllowed(c)
      [] c.kind = "split-parts" -> PartsAllowed(c)
      [] c.kind = "hf" -> HfAllowed(c)
      [] c.kind = "prepare" -> PrepareAllowed(c)
      [] c.kind = "urls" -> UrlsAllowed(c)
      [] c.kind = "pipeline" -> ToolRunAllowed(c)
      [] c.kind = "indexing" -> IndexAllowed(c)
      [] c.kind = "access" -> AccessAllowed(c)
      [] c.kind = "count" -> CountAllowed(Docs(c), c.searches, c.out)

VARIABLES i, done

Init == i \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done
        /\ done' = TRUE
        /\ UNCHANGED i
        /\ IF Allowed(Cases[i]) THEN TRUE ELSE PrintT(<<"BAD", i>>)
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
