// Sources: opening them, loading them in order, loose and short-circuit modes.

// ---- trusted: files, readers ----

// r reads the file of that name; e is why the file could not be opened
spec osFile(name string, r any) bool
spec osErr(name string, e error) bool
spec notExist(e error) bool
func os.Open(name) (f, err)
  ensures err == nil ==> f != nil && osFile(name, box(f))
  ensures err != nil ==> osErr(name, err)
  flags trusted
func os.IsNotExist(err) (r)
  ensures r <==> notExist(err)
  flags trusted, pure
func bytes.NewReader(b) (r)
  ensures r != nil && rdText(box(r)) == b && rdEnd(box(r)) == io.EOF
  flags trusted
func bytes.NewBuffer(b) (r)
  allocates bytes.Buffer
  ensures fresh(r) && r.content == b && rdText(box(r)) == b && rdEnd(box(r)) == io.EOF
  flags trusted
func ioutil.NopCloser(r) (c)
  ensures c != nil && rdText(c) == rdText(r) && rdEnd(c) == rdEnd(r)
  flags trusted
func io.ReadCloser.Close(r) (err)
  flags trusted

// ---- data sources ----

// a source as the caller gives it: the name of a file, data, or a reader
def isSource(src any, d dataSource) bool =
  if typeis(src, "string") then typeis(d, "sourceFile") && unbox(d, "sourceFile").name == unbox(src, "string")
  else if typeis(src, "[]byte") then typeis(d, "*sourceData") && unbox(d, "*sourceData").data == unbox(src, "[]byte")
  else if typeis(src, "io.ReadCloser") then typeis(d, "*sourceReadCloser") && unbox(d, "*sourceReadCloser").reader == src
  else typeis(src, "io.Reader") && typeis(d, "*sourceReadCloser") && (let r = unbox(d, "*sourceReadCloser").reader in rdText(r) == rdText(src) && rdEnd(r) == rdEnd(src))
spec knownSource(src any) bool = typeis(src, "string") || typeis(src, "[]byte") || typeis(src, "io.ReadCloser") || typeis(src, "io.Reader")
spec usable(d dataSource) bool =
  typeis(d, "sourceFile") || typeis(d, "*sourceData") && alloc(unbox(d, "*sourceData")) || typeis(d, "*sourceReadCloser") && alloc(unbox(d, "*sourceReadCloser"))

// reader r delivers what source d holds
def delivers(d dataSource, r any) bool =
  if typeis(d, "sourceFile") then osFile(unbox(d, "sourceFile").name, r)
  else if typeis(d, "*sourceData") then rdText(r) == unbox(d, "*sourceData").data && rdEnd(r) == io.EOF
  else typeis(d, "*sourceReadCloser") && r == unbox(d, "*sourceReadCloser").reader
spec openFails(d dataSource, e error) bool = typeis(d, "sourceFile") && osErr(unbox(d, "sourceFile").name, e)

object sourceReadCloser s
  inv [C16 reader] s.reader != nil

func dataSource.ReadCloser(s) (r, err)
  requires usable(s)
  ensures [C16 opened] err == nil ==> r != nil && delivers(s, r)
  ensures [C16 failed] err != nil ==> openFails(s, err)
  flags interface

func parseDataSource(source) (d, err)
  allocates sourceData, sourceReadCloser
  ensures [C16 known] err == nil <==> knownSource(source)
  ensures [C16 source] err == nil ==> usable(d) && isSource(source, d)

func (*File).reload(f, s) (opened, err)
  requires f.lock.st == 0 && usable(s)
  modifies f.sectionList, f.sectionIndexes, f.sections, f.plog, f.perr
  modifies where(Section.keyList, q, q.f == f), where(Section.keys, q, q.f == f), where(Section.keysHash, q, q.f == f), where(Section.Comment, q, q.f == f), where(Section.isRawSection, q, q.f == f), where(Section.rawBody, q, q.f == f)
  modifies where(Key.value, k, k.s.f == f), where(Key.shadows, k, k.s.f == f), where(Key.isBooleanType, k, k.s.f == f), where(Key.isAutoIncrement, k, k.s.f == f), where(Key.Comment, k, k.s.f == f), where(Key.nestedValues, k, k.s.f == f)
  allocates Section, Key, parser, bufio.Reader, bytes.Buffer
  ensures [C16 notopened] !opened ==> err != nil && openFails(s, err) && f.plog == old(f.plog) && f.perr == old(f.perr)
  ensures [C16 opened] opened ==> f.plog == snoc(old(f.plog), f.plog[len(old(f.plog))]) && delivers(s, f.plog[len(old(f.plog))]) && f.perr == snoc(old(f.perr), err)

spec missing(d dataSource) bool = exists e error :: {osErr(unbox(d, "sourceFile").name, e)} openFails(d, e) && notExist(e)
// source d was applied through reader r: what it delivers, or nothing if it is missing and may be
def appliedAs(loose bool, d dataSource, r any) bool = delivers(d, r) || loose && missing(d) && rdText(r) == "" && rdEnd(r) == io.EOF

spec applied(f *File) int = len(f.plog) - len(old(f.plog))

func (*File).Reload(f) (err)
  props C16
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections, f.plog, f.perr
  modifies where(Section.keyList, q, q.f == f), where(Section.keys, q, q.f == f), where(Section.keysHash, q, q.f == f), where(Section.Comment, q, q.f == f), where(Section.isRawSection, q, q.f == f), where(Section.rawBody, q, q.f == f)
  modifies where(Key.value, k, k.s.f == f), where(Key.shadows, k, k.s.f == f), where(Key.isBooleanType, k, k.s.f == f), where(Key.isAutoIncrement, k, k.s.f == f), where(Key.Comment, k, k.s.f == f), where(Key.nestedValues, k, k.s.f == f)
  allocates Section, Key, parser, bufio.Reader, bytes.Buffer
  // the sources are applied in order, each once, through the readers logged since
  ensures [C16 kept] forall i int :: {f.plog[i]} 0 <= i && i < len(old(f.plog)) ==> f.plog[i] == old(f.plog)[i]
  ensures [C16 count] 0 <= applied(f) && applied(f) <= len(f.dataSources) && len(f.perr) - len(old(f.perr)) == applied(f)
  ensures [C16 order] forall j int :: {f.dataSources[j]} 0 <= j && j < applied(f) ==> appliedAs(f.options.Loose, f.dataSources[j], f.plog[len(old(f.plog)) + j])
  ensures [C16 errors] err == nil ==> forall j int :: {f.dataSources[j]} 0 <= j && j < applied(f) ==> f.perr[len(old(f.perr)) + j] == nil || f.options.Loose && missing(f.dataSources[j])
  ensures [C16 all] err == nil && !f.options.ShortCircuit ==> applied(f) == len(f.dataSources)
  ensures [C16 short] f.options.ShortCircuit ==> forall j int :: {f.dataSources[j]} 0 <= j && j < applied(f) - 1 ==> f.options.Loose && missing(f.dataSources[j])
  ensures [C16 first] err == nil && f.options.ShortCircuit && applied(f) < len(f.dataSources) ==> applied(f) > 0 && delivers(f.dataSources[applied(f)-1], f.plog[len(f.plog)-1])
  ensures [C11,C16 why] err != nil ==> applied(f) > 0 && err == f.perr[len(f.perr)-1] || applied(f) < len(f.dataSources) && openFails(f.dataSources[applied(f)], err) && !(f.options.Loose && notExist(err))
  loop 0:
    invariant f.lock.st == 0
    invariant len(f.plog) == len(old(f.plog)) + $i && len(f.perr) == len(old(f.perr)) + $i
    invariant forall i int :: {f.plog[i]} 0 <= i && i < len(old(f.plog)) ==> f.plog[i] == old(f.plog)[i]
    invariant forall j int :: {f.dataSources[j]} 0 <= j && j < $i ==> appliedAs(f.options.Loose, f.dataSources[j], f.plog[len(old(f.plog)) + j])
    invariant forall j int :: {f.dataSources[j]} 0 <= j && j < $i ==> f.perr[len(old(f.perr)) + j] == nil || f.options.Loose && missing(f.dataSources[j])
    invariant f.options.ShortCircuit ==> forall j int :: {f.dataSources[j]} 0 <= j && j < $i ==> f.options.Loose && missing(f.dataSources[j])
  end

// the options a file gets: those given, with the documented defaults
spec takes(f *File, o LoadOptions) bool = f.options.Loose == o.Loose && f.options.Insensitive == o.Insensitive && f.options.InsensitiveSections == o.InsensitiveSections && f.options.InsensitiveKeys == o.InsensitiveKeys && f.options.IgnoreContinuation == o.IgnoreContinuation && f.options.IgnoreInlineComment == o.IgnoreInlineComment && f.options.SkipUnrecognizableLines == o.SkipUnrecognizableLines && f.options.ShortCircuit == o.ShortCircuit && f.options.AllowBooleanKeys == o.AllowBooleanKeys && f.options.AllowShadows == o.AllowShadows && f.options.AllowNestedValues == o.AllowNestedValues && f.options.AllowPythonMultilineValues == o.AllowPythonMultilineValues && f.options.SpaceBeforeInlineComment == o.SpaceBeforeInlineComment && f.options.UnescapeValueDoubleQuotes == o.UnescapeValueDoubleQuotes && f.options.UnescapeValueCommentSymbols == o.UnescapeValueCommentSymbols && f.options.UnparseableSections == o.UnparseableSections && f.options.KeyValueDelimiters == (if o.KeyValueDelimiters == "" then "=:" else o.KeyValueDelimiters) && f.options.KeyValueDelimiterOnWrite == (if o.KeyValueDelimiterOnWrite == "" then "=" else o.KeyValueDelimiterOnWrite) && f.options.ChildSectionDelimiter == (if o.ChildSectionDelimiter == "" then "." else o.ChildSectionDelimiter) && f.options.PreserveSurroundedQuote == o.PreserveSurroundedQuote && f.options.DebugFunc == o.DebugFunc && f.options.ReaderBufferSize == o.ReaderBufferSize && f.options.AllowNonUniqueSections == o.AllowNonUniqueSections && f.options.AllowDuplicateShadowValues == o.AllowDuplicateShadowValues
// the options that say nothing but that
spec only(f *File, loose bool, ins bool, shadows bool) bool = f.options.Loose == loose && f.options.Insensitive == ins && f.options.InsensitiveSections == false && f.options.InsensitiveKeys == false && f.options.IgnoreContinuation == false && f.options.IgnoreInlineComment == false && f.options.SkipUnrecognizableLines == false && f.options.ShortCircuit == false && f.options.AllowBooleanKeys == false && f.options.AllowShadows == shadows && f.options.AllowNestedValues == false && f.options.AllowPythonMultilineValues == false && f.options.SpaceBeforeInlineComment == false && f.options.UnescapeValueDoubleQuotes == false && f.options.UnescapeValueCommentSymbols == false && len(f.options.UnparseableSections) == 0 && f.options.KeyValueDelimiters == "=:" && f.options.KeyValueDelimiterOnWrite == "=" && f.options.ChildSectionDelimiter == "." && f.options.PreserveSurroundedQuote == false && f.options.DebugFunc == nil && f.options.ReaderBufferSize == 0 && f.options.AllowNonUniqueSections == false && f.options.AllowDuplicateShadowValues == false

// configuration: a child-section delimiter that is usable with the default section's name
spec delimOK(d string, ins bool) bool = s.valid(d) && s.lidx(if ins then s.lower(DefaultSection) else DefaultSection, d) < 0
spec optsOK(o LoadOptions) bool = delimOK(if o.ChildSectionDelimiter == "" then "." else o.ChildSectionDelimiter, o.Insensitive || o.InsensitiveSections)

func newFile(dataSources, opts) (f)
  requires optsOK(opts)
  requires forall i int :: {dataSources[i]} 0 <= i && i < len(dataSources) ==> usable(dataSources[i])
  allocates File
  update f.plog = empty("[]any")
  update f.perr = empty("[]error")
  ensures fresh(f) && f.lock.st == 0 && f.dataSources == dataSources && f.sectionList == empty("[]string") && f.BlockMode
  ensures [C16 options] takes(f, opts)

axiom [defaultSectionDot] delimOK(".", false) && delimOK(".", true)

// every source was applied, as Reload says
spec loaded(f *File) bool =
  len(f.perr) == len(f.plog) && len(f.plog) <= len(f.dataSources)
  && (forall j int :: {f.dataSources[j]} 0 <= j && j < len(f.plog) ==> appliedAs(f.options.Loose, f.dataSources[j], f.plog[j]) && (f.perr[j] == nil || f.options.Loose && missing(f.dataSources[j])))
  && (!f.options.ShortCircuit ==> len(f.plog) == len(f.dataSources))
  && (f.options.ShortCircuit ==> forall j int :: {f.dataSources[j]} 0 <= j && j < len(f.plog) - 1 ==> f.options.Loose && missing(f.dataSources[j]))
  && (f.options.ShortCircuit && len(f.plog) < len(f.dataSources) ==> len(f.plog) > 0 && delivers(f.dataSources[len(f.plog)-1], f.plog[len(f.plog)-1]))
spec sourcesAre(f *File, source any, others []any) bool =
  len(f.dataSources) == 1 + len(others) && isSource(source, f.dataSources[0]) && (forall j int :: {others[j]} 0 <= j && j < len(others) ==> isSource(others[j], f.dataSources[j+1]))
spec allKnown(source any, others []any) bool = knownSource(source) && (forall j int :: {others[j]} 0 <= j && j < len(others) ==> knownSource(others[j]))

func LoadSources(opts, source, others) (f, err)
  requires optsOK(opts)
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C11,C16 either] err == nil <==> f != nil
  ensures [C16 unknown] !allKnown(source, others) ==> err != nil
  ensures [C16 loaded] err == nil ==> fresh(f) && takes(f, opts) && sourcesAre(f, source, others) && loaded(f)
  ensures [C22 free] err == nil ==> f.lock.st == 0
  loop 0:
    invariant len(sources) == 1 + len(others) && isSource(source, sources[0]) && usable(sources[0]) && knownSource(source)
    invariant forall j int :: {others[j]} 0 <= j && j < $i ==> isSource(others[j], sources[j+1]) && usable(sources[j+1]) && knownSource(others[j])
  end

func Load(source, others) (f, err)
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C22 free] err == nil ==> f.lock.st == 0
  ensures [C16 loaded] (err == nil <==> f != nil) && (err == nil ==> fresh(f) && only(f, false, false, false) && sourcesAre(f, source, others) && loaded(f))
func LooseLoad(source, others) (f, err)
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C22 free] err == nil ==> f.lock.st == 0
  ensures [C16 loaded] (err == nil <==> f != nil) && (err == nil ==> fresh(f) && only(f, true, false, false) && sourcesAre(f, source, others) && loaded(f))
func InsensitiveLoad(source, others) (f, err)
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C22 free] err == nil ==> f.lock.st == 0
  ensures [C05,C16 loaded] (err == nil <==> f != nil) && (err == nil ==> fresh(f) && only(f, false, true, false) && sourcesAre(f, source, others) && loaded(f))
func ShadowLoad(source, others) (f, err)
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C22 free] err == nil ==> f.lock.st == 0
  ensures [C06,C16 loaded] (err == nil <==> f != nil) && (err == nil ==> fresh(f) && only(f, false, false, true) && sourcesAre(f, source, others) && loaded(f))

func (*File).Append(f, source, others) (err)
  requires f.lock.st == 0
  modifies f.dataSources, f.sectionList, f.sectionIndexes, f.sections, f.plog, f.perr
  modifies where(Section.keyList, q, q.f == f), where(Section.keys, q, q.f == f), where(Section.keysHash, q, q.f == f), where(Section.Comment, q, q.f == f), where(Section.isRawSection, q, q.f == f), where(Section.rawBody, q, q.f == f)
  modifies where(Key.value, k, k.s.f == f), where(Key.shadows, k, k.s.f == f), where(Key.isBooleanType, k, k.s.f == f), where(Key.isAutoIncrement, k, k.s.f == f), where(Key.Comment, k, k.s.f == f), where(Key.nestedValues, k, k.s.f == f)
  allocates Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C16 unknown] !allKnown(source, others) ==> err != nil && f.plog == old(f.plog)
  ensures [C16 appended] allKnown(source, others) ==> let n = len(old(f.dataSources)) in len(f.dataSources) == n + 1 + len(others)
    && (forall j int :: {f.dataSources[j]} 0 <= j && j < n ==> f.dataSources[j] == old(f.dataSources)[j]) && isSource(source, f.dataSources[n]) && (forall j int :: {others[j]} 0 <= j && j < len(others) ==> isSource(others[j], f.dataSources[n+1+j]))
  ensures [C16 order] err == nil ==> forall j int :: {f.dataSources[j]} 0 <= j && j < applied(f) ==> appliedAs(f.options.Loose, f.dataSources[j], f.plog[len(old(f.plog)) + j]) && (f.perr[len(old(f.perr)) + j] == nil || f.options.Loose && missing(f.dataSources[j]))
  ensures [C16 all] err == nil && !f.options.ShortCircuit ==> applied(f) == len(f.dataSources)
  ensures [C16 short] err == nil && f.options.ShortCircuit ==> (forall j int :: {f.dataSources[j]} 0 <= j && j < applied(f) - 1 ==> f.options.Loose && missing(f.dataSources[j])) && (applied(f) < len(f.dataSources) ==> applied(f) > 0 && delivers(f.dataSources[applied(f)-1], f.plog[len(f.plog)-1]))
  loop 0:
    invariant f.lock.st == 0 && knownSource(source)
    invariant f.plog == old(f.plog) && f.perr == old(f.perr)
    invariant len(f.dataSources) == len(old(f.dataSources)) + 1 + $i
    invariant forall j int :: {f.dataSources[j]} 0 <= j && j < len(old(f.dataSources)) ==> f.dataSources[j] == old(f.dataSources)[j]
    invariant isSource(source, f.dataSources[len(old(f.dataSources))])
    invariant forall j int :: {others[j]} 0 <= j && j < $i ==> isSource(others[j], f.dataSources[len(old(f.dataSources))+1+j]) && knownSource(others[j])
    invariant forall j int :: {f.dataSources[j]} 0 <= j && j < len(f.dataSources) ==> usable(f.dataSources[j])
  end

func Empty(opts) (f)
  requires len(opts) > 0 ==> optsOK(opts[0])
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C16 empty] f != nil ==> fresh(f) && (len(opts) > 0 ==> takes(f, opts[0])) && (len(opts) == 0 ==> only(f, false, false, false))
