import json
P=[]
def p(id,title,statement,over,text,why,files,mech,hook=None,**k):
    d={'id':id,'title':title,'statement':statement,
       'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}}
    d['anchors'].update(k)
    assert len(title)<=80,(id,len(title))
    P.append(d)
IO=['la/io.py']
p('A01','An archive behaves as a dictionary from keys to larrys over any history',
 'Whatever sequence of saves, overwrites, deletes, listings, membership tests and repacks several clients and processes make, through dictionary-style access, function calls by path (also by that of a symbolic link) or an already open file, every read returns exactly the larry last stored under that key: same values, dtype, shape and labels of the same types (a numpy scalar or a long as the equal Python number or string). The listed keys are exactly those stored and not deleted, as plain strings usable as keys again. Objects in the file that are not larrys, and larrys nested below another key, are never lost.',
 ['histories','inputs'],'every finite sequence of archive operations by any number of clients and processes over any archivable larrys and keys',
 'The result depends on the whole history: which keys nest in which, what was deleted before, which process opened the file; tests sample a few short histories on one file.',
 IO,[('dictionary interface','la/io.py:IO'),('save, load, delete','la/io.py:save'),('label conversion for HDF5','la/io.py:_larry2arrays')])
p('A02','A rejected, failed or interrupted archive operation damages nothing',
 'An archive operation that is rejected (bad key, missing key, value or label that cannot be archived) leaves the whole archive exactly as it was. One that fails or is interrupted part way (out of memory, interrupt by the user) leaves every other larry and every foreign object as they were and its own key holding the old larry, the new larry or nothing, never a mixture. Trying again afterwards succeeds.',
 ['fault_sequences','histories','inputs'],'every archive history with rejected operations, and a failure or interrupt at any line or call made by an operation',
 'Tests do not interrupt an operation between two of its steps, and look at the archive only after success.',
 IO,[('save','la/io.py:_save'),('validation before writing','la/io.py:_larry2arrays'),('delete','la/io.py:_delete')])
p('A03','Disk errors are reported: acknowledged means stored, reads are right or fail',
 'If the disk reports an error or is full while the archive is written, the operation raises, or else what it was asked to store is completely stored. A read during which the disk reports an error raises or returns exactly the archived larry. Other larrys in the archive stay readable and unchanged.',
 ['fault_sequences','histories'],'every archive history with a one-off read, write, truncate or open error, short transfer, interrupted system call or a disk that fills up at any point of an operation',
 'Needs a disk that fails at a chosen system call; tests run on a healthy disk.',
 IO,[('flush before the save is acknowledged','la/io.py:_save'),('partial write','la/io.py:lara.__setitem__'),('open','la/io.py:_openfile')])
p('A04','Repacking never endangers the archive: crash, power loss or disk error',
 'At every moment during a repack, and after a crash, power loss or disk error at any point of it, the archive name holds a complete archive with exactly the larrys, other objects, links and attributes it held before. A repack that reports success leaves exactly that archive, one that fails leaves the old archive usable and no temporary file. A symbolic link to the archive still leads to it. Leftovers of an earlier crashed repack do not disturb a later one.',
 ['crash_points','fault_sequences'],'every archive content, every crash point and disk error during the repack, every subset of unsynced writes lost by a power failure',
 'Needs stopping the process between any two system calls and losing writes that were not synced.',
 IO,[('repack','la/io.py:repack'),('replacement of the file','la/io.py:_replace')])
p('A05','Reading an archive never modifies it',
 'Loading, listing, membership tests, lengths, sizes, text representation and partial reads, and operations that are rejected, perform no write on an existing archive file and leave it byte for byte as it was, even if the read fails. Reading works just as well if the file may only be read.',
 ['histories','fault_sequences'],'every history of reading operations on every archive, with read errors and interrupts',
 'Tests compare returned values, not the file, and do not see the system calls.',
 IO,[('reads open the file','la/io.py:_openfile'),('listing','la/io.py:archive_directory')])
p('A06','Partial reads and writes of an archived larry equal indexing it in memory',
 'Reading a part of an archived larry gives the same values and labels as indexing the whole larry in memory, and assigning to a part changes exactly those elements, or raises and changes nothing. Data and labels always come from one version of the larry, even if it was replaced, deleted or repacked after the partial reader was made. Assigning a larry that is not aligned is rejected.',
 ['histories','inputs'],'every supported index, every larry, every interleaving of partial access with whole-larry operations on the same key',
 'A partial reader that outlives a replacement of its larry is a history tests do not build; the index space is far larger than the sample.',
 IO+['la/deflarry.py'],[('partial access','la/io.py:lara'),('indexing','la/deflarry.py:larry.__getitem__')])
p('A07','Concurrent readers of an archive all see exactly what is stored',
 'Threads that share an archive, or a partial reader, and only read it get exactly what each would get alone, whatever the interleaving, while other threads read and write archives of their own. Every thread finishes, and no file is left open.',
 ['schedules'],'every interleaving of the readers at the line level',
 'Race windows of a few lines are hit by a stress test only by luck, and never reproducibly.',
 IO,[('partial reader state','la/io.py:lara._attach'),('free space visitor','la/io.py:IO.freespace')])
p('A08','Archive files are released on success and failure; open files stay open',
 'When an archive operation given a path returns or raises, whatever the failure, no file it opened stays open, so another program can use the file at once. An open file passed in stays open and usable, again also on failure (except that a repack hands back a new one).',
 ['fault_sequences','histories'],'every archive operation, valid or rejected, with a failure injected at any call it makes or a disk error',
 'Leaks on failure paths appear only when a particular step fails, and are hidden by garbage collection in tests.',
 IO,[('open and close','la/io.py:_openfile'),('with blocks','la/io.py:IO')])
p('A09','What the archive acknowledged survives the death of the process',
 'Once a save, an overwrite, a delete, a partial write or a repack has returned, a process that opens the archive later finds its effect, even if the process that made it is killed at any moment afterwards outside another change, without closing anything, also when the change was made through a file that stays open. A process killed while it reads an archive leaves it as it was.',
 ['crash_points','histories'],'every history of archive operations by path and by open file, with the process killed between any two operations or at any system call of a read',
 'Tests end in an orderly way, which closes and thereby flushes every file.',
 IO,[('flush before an operation is acknowledged','la/io.py:_save'),('delete','la/io.py:_delete'),('partial write','la/io.py:lara.__setitem__')])
p('T01','Writing a text or binary file: success is reported only for a complete file',
 'Exporting to a comma separated file or dumping raw data either raises or leaves a file that contains every value, completely and in order, even if the disk fills up, reports errors or transfers less than asked. No file stays open.',
 ['fault_sequences','inputs'],'every larry that can be exported and every write error, short write or full disk at any point',
 'Errors surface at flush or close time and only on a failing disk.',
 ['la/deflarry.py'],[('csv export','la/deflarry.py:larry.tocsv'),('raw dump','la/deflarry.py:larry.tofile')])
p('T02','Reading a comma separated file never yields partial or altered data silently',
 'Building a larry from a comma separated file gives exactly the exported values and labels, or raises: also when reads fail, are short or are interrupted. What was exported by a successful export reads back as the same larry.',
 ['fault_sequences','inputs'],'every exported larry, every read error or short read at any point',
 'Needs a disk that fails in the middle of the file.',
 ['la/deflarry.py'],[('csv import','la/deflarry.py:larry.fromcsv'),('csv export','la/deflarry.py:larry.tocsv')])
p('N01','Quotes from the network are complete and correctly dated, or reported missing',
 'Fetching price histories over an unreliable network either returns, for every ticker, exactly the prices the server has for the dates asked, aligned by date, or leaves out and reports the ticker or raises; never truncated, shifted or mixed data. The dates asked follow the caller or, by default, the calendar date when the call is made.',
 ['fault_sequences','inputs'],'every sequence of server answers (errors, timeouts, truncated or reordered bodies) and clock readings',
 'Needs a misbehaving server and a controlled clock; the tests do not touch the network at all.',
 ['la/data/yahoo.py'],[('quote retrieval','la/data/yahoo.py:quotes')])
p('R01','Random train/test splits are exact partitions under any random stream',
 'Cross validation yields exactly k folds whose test sets are disjoint, none smaller than n // k, and cover all indices, each with its complement as training set; bootstrap yields the asked number of samples of n indices drawn with repetition, each with the indices that were not drawn as a test set that is never empty. This holds for any randomness, also when several generators and other users of the random source are interleaved or are given hostile random functions. Equal seeds give equal folds, a random function that is passed in is the only one used, every division can occur, and a failing random function is never taken for the end. A fold that was yielded does not change later.',
 ['schedules','inputs'],'every n, k, random stream and interleaving of several consumers',
 'Tests fix one stream and run one generator to the end.',
 ['la/util/resample.py'],[('k-fold cross validation','la/util/resample.py:cross_validation'),('bootstrap','la/util/resample.py:bootstrap')])
p('R02','Shuffling only permutes, and disturbs neither labels nor the other slices',
 'Shuffling data along an axis only reorders whole slices along that axis and leaves the labels alone; shuffling labels only reorders the labels of that axis and leaves the data alone; this holds for any random stream, also with several threads, and when the operation fails. The random source is that of numpy, or the function passed in, so equal seeds give equal results, and every order can occur. Random larrys have the asked shape and labels and hold what their random source gave.',
 ['inputs','fault_sequences'],'every larry, axis, random stream and failure point',
 'Depends on the random stream; tests fix one seed.',
 ['la/deflarry.py','la/farray/misc.py'],[('shuffle','la/deflarry.py:larry.shuffle'),('shuffle labels','la/deflarry.py:larry.shufflelabel')])
p('M01','Operations that are not in-place never change their operands',
 'No method, operator or function other than those documented as working in place changes the data or labels of its arguments, whether it returns, raises, runs out of memory or is interrupted at any point. None leaves numpy with other settings or another random state.',
 ['fault_sequences','inputs'],'every public operation, every operand and every failure or interrupt point',
 'Temporary in-place changes that are undone at the end are invisible to tests on the success path.',
 ['la/deflarry.py','la/flarry.py'],[('larry methods','la/deflarry.py:larry'),('functions on larrys','la/flarry.py')])
p('M02','Threads that share larrys compute the same results as each would alone',
 'Threads that apply operations which are not in-place to the same larrys get exactly the results they get when run alone, under every interleaving; there is no hidden shared state.',
 ['schedules'],'every pair of operations on shared larrys and every line-level interleaving',
 'Race windows are not reached reproducibly by tests.',
 ['la/deflarry.py','la/flarry.py','la/farray'],[('larry methods','la/deflarry.py:larry'),('group and moving functions','la/farray')])
p('M03','A result documented as a copy shares no storage with its operands',
 'After an operation documented to return a copy, whatever the owner of either side later does in place to data or labels is invisible to the other; nor do several results of one operation, or the parts of one, share storage.',
 ['histories','schedules'],'every copying operation followed by every in-place operation, interleaved with the owners observing',
 'Aliasing of labels shows only when a later in-place operation is applied; tests check values at once.',
 ['la/deflarry.py','la/flarry.py'],[('copies','la/deflarry.py:larry.copy'),('label copies','la/deflarry.py:larry.copylabel')])
p('M04','In-place operations leave a well-formed larry even when they fail',
 'After any sequence of in-place operations, some of which fail because of bad arguments, failing user functions or lack of memory, the larry is well-formed: as many labels as elements along each axis, no duplicates; so is every larry they return. An operation that la rejects or that failed in a user function left data and labels as they were, a flip never separates values from their labels even when interrupted, and a change of the data never changes labels or the other way round.',
 ['histories','fault_sequences'],'every sequence of in-place operations with failures injected into user functions and into the calls they make',
 'Requires a failure between the change of the data and the change of the labels.',
 ['la/deflarry.py'],[('in-place methods','la/deflarry.py:larry'),('label mapping','la/deflarry.py:larry.maplabel')])
p('M05','Results depend on what the operands are now, never on what happened before',
 'Whatever operations, in-place changes and failures came before, an operation on a larry gives the same result, or the same error, and leaves the same operand, as in a new process on a larry just built from the same data and labels. Label lookups, alignments, groupings and moving windows in particular see labels, groups and data as they are at the time of the call, also after their owners changed or replaced them.',
 ['histories','inputs'],'every history of operations and changes by the owners of larrys, groups, arrays and label lists, followed by every operation',
 'A stale cache shows only if a lookup, a change and another lookup come in that order; tests use new objects each time.',
 ['la/deflarry.py','la/flarry.py','la/flabel.py','la/farray'],[('label lookup','la/deflarry.py:larry.labelindex'),('alignment','la/deflarry.py:larry.morph'),('groups','la/deflarry.py:larry._group_align')])
p('D01','Results do not depend on hash order, the C extension or optional packages',
 'The same program gives the same results, with the same order of labels, whatever the hash seed, flags, locale and time zone of the interpreter, with the extension compiled from either source or absent, and with or without the optional packages as far as the operations are available. Files written by one installation read the same in another.',
 ['configurations','inputs'],'every operation, hash seed and installation',
 'Tests run in one installation with one hash seed.',
 ['la/flabel.py','la/src/cflabel.pyx','la/__init__.py'],[('label operations in Python','la/flabel.py'),('label operations in C','la/src/cflabel.pyx')])
# ---- pure functions: outside this family ---------------------------------
p('P01','Indexing keeps each value with its label',
 'Every way of selecting part of a larry returns each selected value under the label it had in the original.',
 ['inputs'],'every larry and index','The index space is unbounded.',['la/deflarry.py'],[('indexing','la/deflarry.py:larry.__getitem__')])
p('P02','Binary operations and merges combine elements by label',
 'Arithmetic, comparison, alignment, morphing and merging combine or place elements that have equal labels, whatever the order of the labels in the operands.',
 ['inputs'],'every pair of larrys and join method','The space of label arrangements is unbounded.',['la/flarry.py','la/deflarry.py'],[('alignment','la/flarry.py:align'),('binary operation','la/flarry.py:binaryop')])
p('P03','Reductions ignore missing values as documented',
 'Reductions over an axis equal the same reduction of the values that are not missing.',
 ['inputs'],'every larry and axis','The input space is unbounded.',['la/deflarry.py'],[('reductions','la/deflarry.py:larry.sum')])
p('P04','Moving-window functions equal the function of each window',
 'Every element of a moving-window result equals the plain function of its window, missing values treated as documented.',
 ['inputs'],'every larry, window and axis','The input space is unbounded.',['la/farray/mov.py'],[('moving windows','la/farray/mov.py')])
p('P05','Grouping, ranking and normalising work slice by slice',
 'Group statistics, rankings and normalisations of one slice do not depend on the other slices and follow their definitions.',
 ['inputs'],'every larry, axis and grouping','The input space is unbounded.',['la/farray/group.py','la/farray/normalize.py'],[('groups','la/farray/group.py'),('normalising','la/farray/normalize.py')])
p('P06','Conversions between larrys and tuples, dictionaries and lists round trip',
 'Converting a larry to a tuple, list or dictionary form and back in memory gives the same larry.',
 ['inputs'],'every larry','The input space is unbounded.',['la/deflarry.py'],[('conversions','la/deflarry.py:larry.fromtuples')])
p('P07','The constructor accepts exactly the well-formed combinations',
 'A larry is created exactly if there is one label list per axis with as many distinct labels as elements.',
 ['inputs'],'every data and label argument','The input space is unbounded.',['la/deflarry.py'],[('constructor','la/deflarry.py:larry.__init__')])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
