"""Writes /verif/properties.jsonl (one source of truth for ids, titles, statements, anchors)."""
import json, pathlib
P=[]
R='src/mccode_antlr/'
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={'files':[R+f for f in files],'mechanism':[{'name':n,'where':R+w} for n,w in mech]}
    if state: a['state']=[{'name':s,'meaning':'state the property is about'} for s in state]
    if obs: a['observe_at']=obs
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))

p('C01','A remotely fetched file is byte-exact or the request fails',
 "Whatever the network, the disk and other processes sharing the cache do, a file obtained through a remote registry (its path, its contents, or a component or include read from it) has exactly the bytes whose hash the registry lists, or the request raises; a truncated, corrupted, stale or foreign file is never handed out and never becomes the answer to a later request. Asking for one file never yields a different file. Once faults stop, the next request succeeds, and a file that is already cached intact is served without the network.",
 ['fault_sequences','crash_points','schedules'],
 'all sequences of HTTP failures/corruptions, disk errors, process kills at any file operation, cache tampering, and all interleavings of processes sharing one cache directory',
 'the tests have no network and never fetch; the guarantee is about what is left in the cache after a fault at an arbitrary operation and about concurrent writers',
 ['reader/registry.py','reader/reader.py'],
 [('pooch fetch with hash','reader/registry.py:RemoteRegistry.path'),('name to file resolution','reader/registry.py:RemoteRegistry.fullname'),('first registry that knows the name wins','reader/reader.py:Reader.contents')],
 ['<cache>/mccode_antlr/<name>/<version>/**'],['Registry.path','Registry.contents','Reader.get_component'])

p('C02','The cached registry listing is complete or is not used',
 "Constructing a GitHub registry yields a registry that knows exactly the files and hashes the server lists for that version, or raises; this also holds for every later construction after earlier ones were killed, ran out of disk or raced with each other while recording the listing in the cache. A failed or non-OK download leaves nothing behind that is later trusted, listings of different names and versions never mix, and once faults stop construction succeeds and afterwards needs no network.",
 ['crash_points','fault_sequences','schedules'],
 'all crash points and disk/network faults during construction, and all interleavings of constructing processes sharing a cache',
 'a test sees one undisturbed construction; a torn listing only exists after a crash or error inside the write, or in a racing reader',
 ['reader/registry.py'],
 [('listing download, cache and re-read','reader/registry.py:GitHubRegistry.__init__')],
 ['<cache>/mccode_antlr/<name>/<version>/<filename>'],['GitHubRegistry.filenames','Registry.known'])

p('C03','One advertised version tag is used consistently, or import fails',
 "At start-up the McStas, McXtrace and libc registries all use one and the same tag that the remote repository advertises: the configured tag if it is advertised, otherwise an error, and for 'latest' the highest advertised version. Listing and files are requested from exactly that tag's location and cached under that tag, so files of one version are never served for another, also when the remote gains or loses tags between processes or git fails.",
 ['fault_sequences','histories','configurations'],
 'all git failures and outputs, tag sets, tag changes between processes, and configured tags',
 'the remote is an external party whose answers change over time; tests pin one tag in one empty repository',
 ['reader/registry.py','config/__init__.py'],
 [('tag discovery and selection','reader/registry.py:_mccode_pooch_registries')],
 ['<cache>/mccode_antlr/{mcstas,mcxtrace,libc}/<tag>'],['MCSTAS_REGISTRY.version','pooch.base_url'])

p('C04','A failed component or instrument load leaves no trace',
 "If loading a component or instrument fails part-way (missing file, content that is refused, network or disk failure, interruption, also inside a copied component or an include), or if adding a component to an assembled instrument fails, the reader and the instrument are as if the attempt had not been made: retrying after the fault clears gives the same component or instrument, with the same compile flags in the same order and multiplicity and the same registries, as after the same requests without those that failed. Each component type is read from the highest-priority registry that knows it and is built once per reader, and all instances of that type share it.",
 ['fault_sequences','histories'],
 'all histories of load requests on one reader with faults at any registry access',
 'unit tests load once on a healthy registry; the property relates a faulted history to a fault-free one',
 ['reader/reader.py','comp/visitor.py','instr/visitor.py','assembler/assembler.py'],
 [('component cache','reader/reader.py:Reader.get_component'),('flag accumulation','reader/reader.py:Reader.add_c_flags'),('copied component definitions','comp/visitor.py:CompVisitor')],
 ['Reader.components','Reader.c_flags','Reader.registries'],['Reader.get_component','Reader.get_instrument','Instr.flags'])

p('C05','An instrument saved to HDF5 loads back equivalent or not at all',
 "Loading a file written by save_hdf5 gives an instrument that is equivalent to the saved one (same parameters, components, placement, groups, jumps, extend/when/split, declarations, flags and registries, hence the same generated C), and saving it again changes nothing. After any disk error or crash during saving, the file is still the previous complete instrument or is the new complete one (or, if there was none before, may be absent or rejected with an error); loading under disk or network faults gives the saved instrument or an error, never some other or a partly usable instrument, and save_hdf5 only returns normally when the new instrument is what a reader gets.",
 ['crash_points','fault_sequences','programs'],
 'all instruments of the supported language and all disk faults/crash points during save and load, including overwriting an existing file',
 'tests save small instruments to memory; what a reader sees after a torn write depends on the fault position',
 ['io/hdf5.py'],
 [('typed recursive writer/reader','io/hdf5.py:HDF5IO'),('file-level save/load','io/hdf5.py:save_hdf5, load_hdf5')],
 ['the .h5 file'],['load_hdf5'])

p('C06','Translation and compile flags are reproducible',
 "Given the same instrument, registries, configuration and date, the generated C source and the compiler command line are identical in every process: independent of hash randomisation, directory enumeration order, whether caches are warm or cold, how often or in which order instruments were translated before in the process, and whether the instrument came from text, a saved file or a copy. Compile flags are passed once each, in order of first appearance.",
 ['schedules','histories','configurations'],
 'all hash seeds, enumeration orders, cache states and preceding translation histories',
 'one test process has one hash seed, one enumeration order and one history',
 ['instr/instr.py','translators/c.py','translators/target.py','translators/c_header.py','compiler/c.py'],
 [('flag collection','instr/instr.py:Instr.decoded_flags'),('user-variable/include hierarchy','translators/c.py:CTargetVisitor'),('command line','compiler/c.py:linux_split_flags')],
 ['Instr.flags'],['instrument_source','linux_split_flags'])

p('C07','The generated program transports particles as the instrument says',
 "When the translated instrument runs, every particle visits components in declaration order and in each component's own placement frame, a component runs exactly if its WHEN condition holds, at most one member of a GROUP interacts, EXTEND code runs after its component, SPLIT repeats the rest of the instrument the stated number of times with the weight divided by it, a JUMP (between components outside of GROUPs and without a SPLIT between them) goes to the named target under the stated condition or count, and an absorbed particle visits nothing further. INITIALIZE, SAVE and FINALLY code runs in component order for every component with the instance's own parameter values. This holds for any behaviour of the components (absorb, scatter, restore, fail) and, SPLIT and JUMP excepted, for the FUNNEL form as well.",
 ['schedules','programs','histories'],
 'all instruments of the language and all sequences of component outcomes for each particle',
 'no test compiles or runs a generated program; the property quantifies over the random outcomes of every component for every particle',
 ['translators/c_raytrace.py','translators/c_trace.py','translators/c_initialise.py','translators/c_save.py','translators/c_finally.py','translators/c_decls.py','instr/orientation.py','instr/group.py','instr/jump.py'],
 [('particle loop','translators/c_raytrace.py'),('group membership','instr/instr.py:Instr.determine_groups'),('jump targets','translators/target.py:TargetVisitor')],
 ['particle state','group state','jump counters'],['event log written by the compiled program'])

p('C08','A translated C file is complete, or the translation fails cleanly',
 "Writing the translation of an instrument to a file either leaves the complete translation there or raises; if anything fails (a needed runtime or component file cannot be fetched or read, the disk fills or errors, the process is killed), a previously existing output file still has its old complete contents or the new complete contents. A runtime file that cannot be obtained is always an error, never an omission from the output, and after the fault clears the same call produces the fault-free output.",
 ['fault_sequences','crash_points'],
 'all fault positions among the files read, fetched and written during translation',
 'tests have no runtime files so never complete a translation; partial output appears only under faults',
 ['translators/target.py','translators/c.py'],
 [('output writing','translators/target.py:TargetVisitor.save'),('embedding of library files','translators/target.py:TargetVisitor.embed_file')],
 ['the .c file'],['TargetVisitor.save','TargetVisitor.contents'])

p('C09','Compilation reports success only for a complete binary',
 "Compiling an instrument returns a path only if the compiler ran successfully on the complete source and its finished output is at that path; any compiler failure, kill, missing output or disk fault raises and carries the compiler's message. A partial or failed output is never left where a later compile or run would silently reuse it, an existing good binary is reused unless replacement is asked for and survives a failed replacement, and the same request succeeds after the fault clears.",
 ['fault_sequences','crash_points','histories'],
 'all compiler outcomes (exit codes, signals, missing/partial output), kills of the calling process, and histories of compile/replace/run requests',
 'tests never invoke the compiler; the reuse of a partial binary needs a crash inside an earlier compile',
 ['compiler/c.py','compiler/check.py','run/runner.py'],
 [('compile and reuse','compiler/c.py:_compile_instrument'),('compiler invocation','compiler/c.py:linux_compile'),('capability check','compiler/check.py')],
 ['the binary path'],['compile_instrument','mccode_compile'])

p('C10','A scan runs every point once with its own values and reports it',
 "Running an instrument over a parameter scan executes the program exactly once per scan point, in order, each with that point's parameter values, the requested run-time options and its own output directory, named by the number of the point, and returns for every point that point's output and data. A program that fails, is killed, or whose output is missing or unreadable is reported by an error, never as a successful point; a dry run executes nothing; results of one point are never attributed to another, whatever the directory or the clock.",
 ['fault_sequences','configurations','schedules'],
 'all scan definitions, option sets and fault sequences over the executed points',
 'tests never run a binary; attribution and completeness depend on failures at arbitrary points',
 ['run/runner.py','run/range.py','compiler/c.py','loader/datfile.py'],
 [('scan loop','run/runner.py:mccode_run_scan'),('execution and collection','run/runner.py:mccode_run_compiled'),('process execution','compiler/c.py:run_compiled_instrument')],
 ['scan output directories'],['mccode_run_scan','mccode_run'])

p('C11','Merging detector files conserves counts and never loses or mixes data',
 "Merging detector data files of repeated runs gives summed intensity, error and event data and summed Ncount, unchanged axis values and bin edges, and remembers every contributing directory, date and seed; the numbers do not depend on merge order or grouping beyond rounding, inputs are not modified, and 0-D, 1-D and 2-D data are all covered. Truncated, torn or incompatible inputs raise instead of producing numbers; writing never replaces an existing file, and after a fault or crash the output is absent, complete, or rejected on reading; a file read back has the merged values.",
 ['fault_sequences','crash_points','schedules'],
 'all numbers and orders of contributing files, truncation points, disk faults and crash points',
 'merging is tested on no or few samples; truncation and crash positions are unbounded',
 ['loader/datfile.py'],
 [('reader','loader/datfile.py:DatFileCommon.from_filename'),('merge','loader/datfile.py:combine_mccode_dats'),('writer','loader/datfile.py:DatFileCommon.to_filename')],
 ['*.dat files'],['read_mccode_dat','combine_mccode_dats','write_combined_mccode_dats'])

p('C12','Merging simulation summary files conserves totals of every detector',
 "Merging mccode.sim files keeps every detector entry of every input exactly once; entries of repeats (differing in nothing but date, counts and results) are pooled: event counts and intensity are sums, the error is the root of summed squares, minimum and maximum are those of all, mean and centroid are count-weighted means, each width is the root of the summed squares of width times events, divided by the events, all independent of merge order beyond rounding; the summary's own Ncount is the sum for repeats into the same directory. Inputs are not modified, entries that differ in anything else are kept apart or rejected, files truncated within a block raise, and after a fault or crash while writing, an existing summary is either intact or completely replaced.",
 ['fault_sequences','crash_points','schedules'],
 'all numbers and orders of contributing files, truncation points, disk faults and crash points',
 'pooling identities relate many files and orders; torn files appear only under faults',
 ['loader/simfile.py'],
 [('pooling','loader/simfile.py:SimFileData.combine'),('merge','loader/simfile.py:combine_mccode_sims'),('writer','loader/simfile.py:SimFile.save')],
 ['mccode.sim files'],['combine_mccode_sims','write_combined_mccode_sims','read_mccode_sim'])

p('C13','Saved configuration survives crashes and means what was set',
 "Saving the configuration writes all current settings, so that a new process sees every value that was set, with environment variables taking precedence over the file and the file over packaged defaults. If saving fails or is killed at any point, the existing configuration file is still complete (old or new), and the package still imports and works in the next process.",
 ['crash_points','fault_sequences','histories'],
 'all sequences of set/save/restart operations with crashes and disk faults at any operation',
 'no test saves a configuration; a torn file shows only after a crash and only in the next process',
 ['config/__init__.py','cli/management.py'],
 [('layered configuration','config/__init__.py'),('save','cli/management.py:config_save')],
 ['<config dir>/config.yaml'],['config_get','import mccode_antlr.config'])

p('C14','Cache removal removes exactly the named cache',
 "Removing a cache deletes the named cache (all caches, one name, or one name and version) and nothing else: no file outside the cache directory is ever deleted whatever name and version are given, other names and versions stay intact, and without force nothing is deleted unless the user confirms. A removal that fails or is killed part-way leaves a cache from which later use gets correct files again or an error, and repeating the removal completes it; listing shows exactly what is present.",
 ['fault_sequences','crash_points','histories'],
 'all names/versions/answers, all crash points and errors within the deletion, and interleavings with processes using the cache',
 'no test removes a cache; partial deletion states and hostile names are unbounded',
 ['cli/management.py','reader/registry.py'],
 [('removal','cli/management.py:cache_remove'),('listing','cli/management.py:cache_list')],
 ['<cache>/mccode_antlr/**'],['cache_remove','cache_list','Registry.path'])

p('C15','Copying, splitting and translating an instrument do not disturb each other',
 "Copying, splitting (plain or with MCPL output/input), editing a copy or part, saving or translating an instrument, in any order and any number of times, never changes what any other instrument object translates to: the result of each operation depends only on the instrument's content, not on what was done with it or its relatives before. The parts of a split together contain every component once, in order, in the same absolute placement, and groups and jumps in each part refer to that part's own components or the split is refused.",
 ['histories','programs'],
 'all histories of copy/split/mcpl_split/translate/save operations over a family of related instruments',
 'aliasing shows only for particular operation orders on related objects; tests translate nothing',
 ['instr/instr.py','instr/jump.py','instr/group.py','instr/instance.py','translators/target.py'],
 [('splitting','instr/instr.py:Instr.split, Instr.mcpl_split'),('cached jump targets','translators/target.py:TargetVisitor')],
 ['Instr object graph'],['instrument_source','Instr.split','Instr.copy'])

p('C16','Independent work in concurrent threads does not interfere',
 "Threads that parse, assemble, save or translate different instruments at the same time get, for every interleaving, exactly the results they would get alone: no component, flag, group, jump, metadata or configuration value leaks from one to another, and a failure in one thread does not affect the others. First use of shared registries and lazily loaded state from several threads at once is safe as well.",
 ['schedules'],
 'all interleavings of a bounded number of threads at the granularity of source lines of the package',
 'a test run samples one arbitrary interleaving per run',
 ['reader/reader.py','reader/registry.py','instr/visitor.py','comp/visitor.py','translators/c.py','assembler/assembler.py','common/visitor.py'],
 [('reader state','reader/reader.py:Reader'),('visitor state','instr/visitor.py:InstrVisitor'),('translation state','translators/c.py:CTargetVisitor')],
 ['module-level registries and caches'],['parse_mccode_instr','Assembler','instrument_source'])

p('C17','A local registry answers from what is on disk, in any order of listing',
 "A local registry's answers depend only on the files under its root at the time of the question (each as it was at some moment during it; a directory it has no permission to list counts as empty): known names, the file chosen for a name, the list of file names and the contents are those of a reference search, independent of directory enumeration order; ambiguous names raise rather than picking one by chance. Files created, replaced or removed between or during requests by other processes, unreadable entries and I/O errors lead to a correct answer for some moment during the request or to an error, never to the contents of another file or a mixture of two versions.",
 ['schedules','fault_sequences','configurations'],
 'all directory trees, enumeration orders, concurrent modifications and I/O errors',
 'tests use one static directory in one enumeration order',
 ['reader/registry.py','reader/reader.py'],
 [('lookup','reader/registry.py:LocalRegistry.fullname'),('priority order','reader/registry.py:ordered_registries')],
 ['the registry root'],['LocalRegistry.known','LocalRegistry.path','LocalRegistry.contents','LocalRegistry.filenames','Reader.locate'])

p('C18','External commands in instruments are run faithfully or fail loudly',
 "Commands an instrument or component asks for (SHELL, SEARCH SHELL, and CMD in compile flags, with ENV and GETPATH replaced first) are run by a shell exactly as written, in the working directory, in the order in which the statements stand, once each time the statement is read or the flags are decoded, and not otherwise; the whole standard output of SEARCH SHELL is used, each line one location, later lines searched first, and CMD is replaced by its one line of output, wherever it stands. A command that cannot be started, ends with an error status, is killed, or whose output cannot be used (not text, more than one line for CMD, not a location for SEARCH SHELL) raises an error that names the command or the line, and no flag or location is then missing, truncated or taken from another command. Repeating the request after the fault has cleared gives the fault-free result.",
 ['fault_sequences','histories'],
 'all sequences of command outcomes (exit status, signal, output, partial output) for all instruments using them',
 'tests run no external command; failures of child processes are the fault space',
 ['instr/visitor.py','instr/instr.py','comp/visitor.py','reader/reader.py'],
 [('flag decoding','instr/instr.py:Instr.decoded_flags'),('search shell','instr/visitor.py:InstrVisitor.visitSearchShell')],
 ['Instr.flags','Reader.registries'],['Instr.decoded_flags','parse_mccode_instr'])

p('C24','Search locations supply their own files, in the order they were named',
 "A directory or remote location named in a SEARCH statement of an instrument (or given to the reader) in any of the documented forms is searched before those named earlier, and naming a known location again changes nothing. Components, instruments and the files of GETPATH and include come, in the documented order, from the first location that lists a file of exactly that name (a similarly named file is considered only if none has it), with exactly the content that location publishes, whatever the network, the disk and other processes sharing the cache do. A statement which names nothing usable, or a file that cannot be had intact, fails the load and leaves the reader as it was; what has been had once is available without network to every later process, and an instrument that is saved and loaded again uses the same locations.",
 ['fault_sequences','histories','crash_points'],
 'all sequences of search statements over local, Git and web locations, loads and uses, with all network and disk faults, kills, and later processes on the same cache',
 'the tests never name a remote location; order, repetition, name collisions and recovery are properties of whole histories',
 ['reader/reader.py','reader/registry.py','instr/visitor.py','instr/instr.py','translators/target.py','io/hdf5.py'],
 [('search statement','reader/reader.py:Reader.handle_search_keyword'),('specification to registry','reader/registry.py:registry_from_specification'),('known already','reader/registry.py:registries_match'),('first registry that has the file','reader/registry.py:registry_knowing')],
 ['Reader.registries','<cache>/mccode_antlr/**'],['Reader.get_component','Reader.get_instrument','Instr.decoded_flags','load_hdf5'])

# pure properties (not simulation targets)
p('C19','Expression arithmetic and printing preserve meaning',
 "Parsing, combining, simplifying and printing an expression yields an expression with the same value for all values of its identifiers, in Python and in the C it is printed as.",
 ['inputs'],'all expressions and identifier values','unbounded expressions; a handful is tested',
 ['common/expression.py'],[('expression algebra','common/expression.py:Expr')])
p('C20','Orientation algebra composes as rigid motions',
 "Composing, inverting and reducing placement chains gives the rigid motion that the AT/ROTATED statements define, for every chain and angle, including symbolic ones.",
 ['inputs'],'all placement chains and angles','continuous space of placements',
 ['instr/orientation.py'],[('dependency chains','instr/orientation.py:DependentOrientation')])
p('C21','Every valid instrument or component text is parsed to what it says',
 "Text accepted by the McCode grammar is parsed to an object that contains every stated element, invalid text is rejected with its position, and printing the object and parsing it again gives an equal object.",
 ['programs'],'all instrument and component texts','infinite language',
 ['instr/visitor.py','comp/visitor.py','grammar/McInstr_parse.py' if False else 'grammar/mcinstr_parse.py'],[('visitors','instr/visitor.py:InstrVisitor')])
p('C22','C declarations are extracted with their types and dimensions',
 "Every variable declared in a C DECLARE/USERVARS block is found with its type, pointer and array shape and initial value, and nothing else is.",
 ['inputs'],'all C declaration blocks','infinite language',
 ['translators/c_listener.py'],[('declaration listener','translators/c_listener.py')])
p('C23','Scan ranges yield the same points when counted, listed and zipped',
 "A range min:step:max or list yields the points it denotes, its length equals the number of points it yields, and linear and grid scans combine ranges as zipped and as the full product.",
 ['inputs'],'all range texts','unbounded inputs',
 ['run/range.py'],[('ranges','run/range.py:MRange, parameters_to_scan')])
out=pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(x)+'\n' for x in P))
