"""The properties: source of properties.jsonl and MANIFEST.json (python3 gen.py)."""
O = 'pygsti/objects/'
FLOWNOTE = ('Every path of every public entry point is interpreted abstractly over the syntax tree, helpers inlined; '
            'loops to a fixpoint. Trusted: the abstract interpreter in sa/flow.py, the documented meaning of builtin '
            'container methods and numpy calls. ')
PROPS = [
    dict(id='C01', title='A read-only circuit never changes',
         statement='No operation on a read-only (non-editable) circuit adds, removes, replaces or reorders its layers or '
                   'its lines: an editing operation on it is refused before anything has been altered, and finishing the '
                   'editing of a circuit is irreversible. A read-only circuit holds its layers and lines in immutable '
                   'containers, and neither hands them out nor adopts them in a mutable form.',
         over=['histories', 'inputs'],
         all='every public method, special method and property setter of circuits, on every control-flow path, for every '
             'argument, and every sequence of such calls on one circuit',
         why='circuits are dictionary keys everywhere, so one unguarded edit on one path corrupts data sets and caches; '
             'the tests call some edit methods on editable circuits and hardly any on read-only ones',
         files=[O + 'circuit.py'],
         mech=[('assert(not self._static) at the top of edit methods', O + 'circuit.py: Circuit edit methods'),
               ('done_editing makes the layers a tuple', O + 'circuit.py: Circuit.done_editing')],
         design='Clauses: every write of the layers or lines (own methods, helpers they call, and writers outside the class) is dominated by the guard on the read-only mark, before anything is altered; a read-only circuit stores tuples, neither hands out nor adopts a list (`mutable-container`, traced through helper returns).',
         technique='path-sensitive guard dataflow over all entry points with inlining (typestate: editable/read-only)',
         note=FLOWNOTE + 'Code that reaches into private attributes from other files is searched for, not analysed.'),
    dict(id='C02', title="A circuit's text always describes its current layers and lines",
         statement='Whatever sequence of edits a circuit has gone through, its string form is the text of its present '
                   'layers and lines, never a text remembered from before an edit. A text supplied by the caller is '
                   'taken only after it has been parsed and compared with the layers it is said to describe (unless '
                   'the caller turned checking off).',
         over=['histories', 'inputs'],
         all='every public method and property setter of circuits, every path, every sequence of edits and reads',
         why='the text is remembered lazily, so staleness needs read-then-edit-then-read on the particular edit method; '
             'tests print a circuit once',
         files=[O + 'circuit.py'],
         mech=[('self._str = None after an edit', O + 'circuit.py: edit methods'),
               ('str property rebuilds when _str is None', O + 'circuit.py: Circuit.str')],
         design='Clauses: every path that changes layers or lines drops or recomposes the stored text; a text given by the caller is refused unless a full comparison with layers and lines succeeded (`weak-text-check`, conditions evaluated in three-valued logic, helpers followed); a text put together from the texts of two circuits also carries the lines (`text-without-lines`).',
         technique='write/invalidate pairing dataflow on every path of every entry point',
         note=FLOWNOTE + 'That the freshly generated text is itself right is not decided here.'),
    dict(id='C03', title='A static data set keeps its recorded data',
         statement='Once a data set is static, no operation on it or on one of its rows changes its circuits, its recorded '
                   'outcomes, times or repetition counts; such an operation is refused before anything is altered, and '
                   'nothing makes the set editable again. Renaming outcome labels and attaching auxiliary information '
                   'are the only exceptions. Counts handed to a caller are never the table the set keeps for itself.',
         over=['histories', 'inputs'],
         all='every public operation of data sets and their rows, every path, every history of calls',
         why='there are many writers over shared arrays and slices; tests add data before freezing, not after',
         files=[O + 'dataset.py'],
         mech=[('raise ValueError if bStatic', O + 'dataset.py: DataSet add_* / rename / truncate'),
               ('row setters check dataset.bStatic', O + 'dataset.py: _DataSetRow')],
         technique='path-sensitive guard dataflow over all entry points with inlining (typestate: open/static)',
         note=FLOWNOTE + 'Views of the underlying arrays that numpy itself shares are not tracked.'),
    dict(id='C04', title='Derived tables and cached results follow their source',
         statement='Whenever an object changes the data it keeps a derived table or cached result for (outcome-label tables '
                   'and cached counts of a data set, inverse matrices of gauge elements, shortest-path tables of a qubit '
                   'graph, ...), the derived value is refreshed or dropped on every path before the call returns. A lazily '
                   'built value is rebuilt before it is used.',
         over=['histories', 'inputs'],
         all='every public operation of the listed classes, every path that writes a source field, every history',
         why='staleness shows only for an update followed by a use of the cached value on the same object',
         files=[O + 'dataset.py', O + 'gaugegroup.py', O + 'qubitgraph.py'],
         mech=[('cnt_cache reset / ol rebuilt', O + 'dataset.py'), ('_inv_matrix = None', O + 'gaugegroup.py'),
               ('_dirty flag', O + 'qubitgraph.py')],
         technique='write/refresh pairing dataflow on every path of every entry point',
         note=FLOWNOTE + 'The table of source/derived pairs was enumerated by reading; a new cache is not found by itself.'),
    dict(id='C05', title='Saving and pickling lose nothing',
         statement='Pickling an object, saving a data set to a file, writing a protocol object to a directory or encoding it '
                   'as JSON, and reading it back, restores every field its constructor set (apart from run-time handles '
                   'and caches), from the place it was written to, in an object of the same class. Whatever kind of entry a '
                   'writer emits its reader understands, arrays are read back in the order written, and members are '
                   'linked to their restored owner.',
         over=['programs', 'histories'],
         all='every class of the package that defines how it is pickled or stored, every field, every path of writer and reader',
         why='a dropped field is invisible until the loaded object is used in the one way that needs it; tests round-trip '
             'a few objects and compare a few fields',
         files=[O + 'dataset.py', O + 'multidataset.py', 'pygsti/io/jsoncodec.py', 'pygsti/io/metadir.py',
                'pygsti/protocols/protocol.py', 'pygsti/protocols/gst.py', O + 'labeldicts.py', O + 'label.py'],
         mech=[('__getstate__/__setstate__/__reduce__', 'pygsti/objects/*.py'), ('auxfile_types', 'pygsti/protocols/*.py'),
               ('encode_obj/decode_obj tags', 'pygsti/io/jsoncodec.py')],
         design='Clauses: fields set by the constructor against fields written and restored; where a field is left out the load path must set it on every exit; for binary streams a flag that steers the reader must be in the stream and be the condition the writer used (`stream-flag`).',
         technique='field provenance through writer/reader pairs; tag and file-type agreement; stream-order dataflow',
         note='Field by field provenance (which expression of the state a field is restored from). Trusted: pickle, json and '
              'numpy store values faithfully. Does not decide that values compare equal after the round trip.'),
    dict(id='C06', title='Copies are complete and independent',
         statement='Copying an object gives an object of the same class that carries over every field its constructor was '
                   'given and all state accumulated since (apart from caches and handles), whose members belong to the copy '
                   'and not to the original, and that shares with the original no container either of them changes in '
                   'place.',
         over=['programs', 'histories'],
         all='every copy method of the package, every field of its class, every path of the method',
         why='a dropped or shared field shows only when the copy is used in the one way that needs it, or is changed '
             'later; tests copy and compare at once',
         files=[O + 'circuit.py', O + 'dataset.py', O + 'operation.py', O + 'explicitmodel.py', O + 'evaltree.py',
                O + 'estimate.py', O + 'results.py'],
         mech=[('copy methods', O + '*.py'), ('_init_copy', O + 'model.py: Model._init_copy')],
         technique='field provenance from the original through the copy method into constructor and assignments; ownership rules',
         note='In-place change of a field is looked for inside the class and its relatives. Trusted: copy.deepcopy.'),
    dict(id='C07', title='Changing a model member is always noticed',
         statement='Whenever an operation, state preparation, effect, POVM or instrument of a model is changed through any of '
                   'its public operations (setting its value or its parameter vector, transforming, depolarizing or rotating '
                   'it, setting its error rates, assigning or lending its elements), it is marked dirty so that the model '
                   'picks the change up, and its numerical representation describes the new value when the call returns. '
                   'What it remembers about its place in the parameter vector of the model is dropped when that place '
                   'changes.',
         over=['histories', 'inputs'],
         all='every ModelMember class, every public operation, every path, every sequence of changes and uses',
         why='a missed refresh shows only if the member is used (through the path that reads the stale copy) after that '
             'particular change; tests build a fresh object for each operation',
         files=[O + 'operation.py', O + 'spamvec.py', O + 'povm.py', O + 'instrument.py', O + 'opfactory.py',
                O + 'modelmember.py'],
         mech=[('self.dirty = True', O + 'operation.py: from_vector/set_value/transform/...'),
               ('_update_rep/_construct_matrix/_update_denserep', O + 'operation.py, spamvec.py'),
               ('dirty setter tells the parent', O + 'modelmember.py: ModelMember.dirty'),
               ('set_gpindices clears term caches', O + 'operation.py, spamvec.py')],
         design='Clauses: each public change marks the object dirty; objects that keep a derived representation renew it (`Renewed`), and whatever defers the rebuilding also marks dirty (`rebuilds`).',
         technique='write/refresh ordering dataflow on every path of every entry point; state fields inferred from '
                   'to_vector/from_vector',
         note=FLOWNOTE + 'Children and parameter loops are taken to run at least once. Whether the refreshed numbers are right '
              'is not decided.'),
    dict(id='C08', title="What a caller hands over stays the caller's",
         statement="Setting an object's parameters or value from an array (from_vector, set_value) copies the numbers: the "
                   "object keeps no reference to the caller's array and does not write to it. A constructor does not "
                   "change the arrays and containers it is given, nor keeps one of them as a field whose contents the "
                   "object changes in place later (except the classes documented to take over or view their data: data "
                   "set rows, raw data set tables, protected arrays).",
         over=['histories', 'inputs'],
         all='every from_vector/set_value method and every constructor of the package, every path, every argument',
         why='aliasing shows only if the caller reuses its array (as optimizers do) or changes the object afterwards; the '
             'tests pass fresh arrays',
         files=[O + 'operation.py', O + 'spamvec.py', O + 'model.py', O + 'instrument.py', O + 'wildcardbudget.py'],
         mech=[('v.copy()', O + 'model.py: OpModel.from_vector'), ('self.params[:] = v', O + '*.py'),
               ('convert_to_matrix / convert_to_vector copy', O + 'operation.py, spamvec.py')],
         technique='alias dataflow from the parameters of setters and constructors into fields and writes, helpers inlined',
         note=FLOWNOTE + 'Which numpy calls copy and which return views is taken from the numpy documentation; aliasing through '
              'elements of containers is not followed.'),
    dict(id='C09', title='Derivatives honour their parameter filters',
         statement='A derivative or Hessian computed with parameter filters (wrtFilter, wrtFilter1/2, wrtSlice...) contains '
                   'exactly the filtered columns: on every path each filter given is used, or refused; it selects along its '
                   'own derivative axis and only once; the first and the second filter, and the indices and sizes that go '
                   'with them, are never mixed; arrays to be filled are sized by the filter; a filtered result is never '
                   'kept as the cached full derivative.',
         over=['inputs'],
         all='every function and method that takes a parameter filter, every path through it, every combination of filters '
             'given and not given',
         why='the tests filter few routines, mostly with equal filters on both axes, where a mix-up cannot be seen',
         files=[O + 'matrixforwardsim.py', O + 'mapforwardsim.py', O + 'forwardsim.py', O + 'operation.py', O + 'spamvec.py'],
         mech=[('_process_wrtFilter / wrtFilter1, wrtFilter2', O + 'matrixforwardsim.py'),
               ('_np.take(derivMx, wrtFilter, axis=...)', O + 'operation.py, spamvec.py'),
               ('_fillarray / bulk_fill_dprobs / bulk_fill_hprobs', O + 'forwardsim.py')],
         technique='path-sensitive labelled dataflow (which filter a value depends on, has been selected by, and which axis '
                   'of an array belongs to which filter)',
         note='Trusted: the path walker in sa/paths.py, the naming of the filters (wrtFilter1/wrtFilter2 and numbered '
              'companions), numpy axis semantics. Values of derivatives are not decided (N02).'),
    dict(id='C10', title='Parameter vectors round-trip',
         statement='The parameter vector of a model, or of any parameterised object in it, describes it completely and '
                   'unambiguously: to_vector reads, and from_vector writes, the same values from the same positions, under the '
                   'same conditions, and num_params is their number. The vector of a composite (composed, embedded or '
                   'exponentiated operations, sums of error generators, POVMs, instruments, tensor products, factories) is made '
                   'of those of all its members, each at its own indices; whatever goes through the members - assigning and '
                   'clearing parameter indices, parents, reference counts, derivatives - leaves none out, and parameters that '
                   'members share add up. All members of a model are in its vector and are brought up to date by it, and so '
                   'is everything a simulator made from them.',
         over=['inputs', 'histories'],
         all='every class with a parameter vector, every composite, every container of members in a model or simulator',
         why='tests set random vectors of a few kinds of objects, rarely with shared, nested or parameterless members',
         files=[O + 'operation.py', O + 'spamvec.py', O + 'povm.py', O + 'instrument.py', O + 'opfactory.py', O + 'gaugegroup.py',
                O + 'modelmember.py', O + 'model.py', O + 'explicitmodel.py', O + 'implicitmodel.py', O + 'layerlizard.py'],
         mech=[('to_vector / from_vector / num_params', O + 'operation.py'),
               ('ModelMember.submembers and the walks over it', O + 'modelmember.py'),
               ('OpModel.from_vector, _iter_parameterized_objs', O + 'model.py')],
         technique='symbolic layout of the vector (which part of which field or member, at which index, under which condition) '
                   'computed from to_vector and from_vector and compared; coverage of member containers by every walk',
         note='A layout that cannot be told (while loops, indices computed otherwise) is not judged; 37 of 39 are. How values '
              'are computed from parameters is not judged (N01, N02). Field sizes are compared in dimensions 4 and 16.'),
    dict(id='C11', title='Distributed work stays in step',
         statement='Where a communicator is given, the processes stay in step: all of them make the same collective calls on it '
                   '(broadcasts, reductions, gathers, splits, and functions of the package that make such calls), in the same '
                   'order and with the same root, whatever differs between them - their rank, their share of the work, the '
                   'time, or a value only one of them knows. What the processes compute for their shares of distributed work '
                   'is collected, for every array that is filled, with the owners and on the communicator of that '
                   'distribution, after the work is done, whatever options are set. A value made by one process only is '
                   'passed on to the others before it is returned.',
         over=['schedules', 'inputs'],
         all='every function of the package that handles a communicator, every collective call and every distribution of work',
         why='the tests run in one process',
         files=['pygsti/tools/mpitools.py', O + 'matrixforwardsim.py', O + 'mapforwardsim.py', O + 'termforwardsim.py',
                'pygsti/tools/likelihoodfns.py', 'pygsti/algorithms/germselection.py', 'pygsti/optimize/customlm.py',
                'pygsti/protocols/gst.py', 'pygsti/drivers/longsequence.py'],
         mech=[('distribute / gather', 'pygsti/tools/mpitools.py'),
               ('bulk_fill_* over subtrees and parameter blocks', O + 'matrixforwardsim.py'),
               ('broadcast of what the root process loads or makes', 'pygsti/protocols/gst.py')],
         technique='interprocedural taint of process-dependent values, per communicator; comparison of the collective-call '
                   'sequences of the branches they decide; typestate of distributions (filled, then gathered)',
         note='Point-to-point messages, the partition of the work itself and errors raised by one process only are not judged. '
              'Exceptions (with the reason) are in sa/data/c11_allow.txt.'),
    dict(id='C12', title='The same inputs and seed give the same result',
         statement='A function that is given a seed or a random generator makes every random choice, its own and those of the '
                   'functions it calls, from that seed or generator: none comes from a global or unseeded generator, whatever '
                   'the other options. Rounds of one computation do not all repeat the same random numbers. And where labels, '
                   'circuits or files are collected in a set or read from a directory, the order of results does not depend on '
                   'the hash seed of the process or on the file system.',
         over=['inputs', 'schedules'],
         all='every function with a seed or generator parameter, every path and everything it calls; every walk through a set or a '
             'directory in the package',
         why='a draw from the wrong generator gives results just as plausible; tests compare at most one seeded run with itself '
             'and run under one hash seed',
         files=['pygsti/construction/datasetconstruction.py', 'pygsti/objects/explicitmodel.py', 'pygsti/algorithms/grasp.py',
                'pygsti/drivers/bootstrap.py', 'pygsti/construction/stdlists.py', 'pygsti/protocols/rb.py'],
         mech=[('RandomState(seed) made once and passed on', 'pygsti/construction/datasetconstruction.py: generate_fake_data'),
               ('successive seeds for successive copies', 'pygsti/algorithms/germselection.py: randomize_model_list'),
               ('sorted() before a set becomes a list', 'pygsti/objects/qubitgraph.py')],
         technique='interprocedural abstract interpretation of where random numbers come from; order-taint of set iteration',
         note='Draws are followed through calls that can be resolved in the package. Sets whose elements are indices are not judged '
              '(their order is the same in every run). Functions without a seed parameter may draw from the global generator. '
              'Exceptions, with the reason, are in sa/data/c12_allow.txt.'),
    dict(id='C13', title='Inputs are left as they were',
         statement='A function or constructor of the package does not change in place what its caller gave it - models, circuits, '
                   'data sets, designs, results, arrays, lists, and dictionaries of options - unless changing it is what the '
                   'function is for (methods that set, add to or fill something, arguments documented as outputs or caches). '
                   'Asking an object for something (comparing, hashing, printing, copying, pickling, reading values, '
                   'computing from it, writing it out, running a protocol) does not change it; values adapted during a '
                   'computation are put back. A mutable default value never changes, so no call affects a later one. Where a '
                   'copy of internal data, or of an argument, is handed out or kept, later changes of one do not show in the '
                   'other.',
         over=['inputs', 'histories'],
         all='every public function of the package and every parameter; every query method and its receiver; every mutable '
             'default; every function on record as separating its result or its object from its data',
         why='a test rarely looks at its inputs again after the call, nor calls twice with the same options',
         files=['pygsti/algorithms/core.py', 'pygsti/drivers/longsequence.py', 'pygsti/protocols/gst.py', 'pygsti/objects/model.py',
                'pygsti/objects/dataset.py', 'pygsti/objects/circuit.py', 'pygsti/objects/estimate.py', 'pygsti/tools'],
         mech=[('copies taken before in-place changes', 'pygsti/algorithms/core.py'),
               ('options dictionaries copied before defaults are filled in', 'pygsti/drivers/longsequence.py'),
               ('copy methods', 'pygsti/objects/estimate.py')],
         technique='interprocedural effect and alias analysis (which parameters a function changes, keeps or returns), to a '
                   'fixpoint over the call graph',
         note='Calls that cannot be resolved are taken to have no effect (except mutating methods of built-in and numpy types '
              'and the package methods that set state). Parameters meant to be changed, caches and values restored afterwards '
              'are in sa/data/c13_allow.txt, each with its reason; the entry points are those on record in c13_scope.txt; '
              'c13_fresh.txt lists the functions on record as separating data. Trusted: numpy view/copy semantics.'),
    dict(id='C14', title='Options reach the code they are meant for',
         statement='An option that a function or constructor accepts is read (or refused), and is not overwritten before its '
                   'first use. A function that delegates to another function of the package accepting the option of the '
                   'same name passes its own value on, rather than leaving the default or (for options that stand for data, '
                   'tolerances, seeds or resources) putting a constant in its place. An argument named like one parameter '
                   'of the called function is not passed for another one, and a constructor does not keep one argument '
                   'under the name of another. Excepted are options that only affect what is printed or drawn, and those '
                   'documented as unused.',
         over=['programs', 'inputs'],
         all='every call from one function of the package to another that can be resolved, every option both accept; every '
             'parameter of every function',
         why='a dropped option falls back to the default, which is what the tests use',
         files=['pygsti/tools/likelihoodfns.py', 'pygsti/tools/chi2fns.py', 'pygsti/algorithms/core.py', 'pygsti/io/loaders.py',
                'pygsti/drivers/longsequence.py', 'pygsti/protocols/gst.py'],
         mech=[('options handed from drivers to core algorithms to objective functions', 'pygsti/drivers/longsequence.py'),
               ('keyword forwarding', 'pygsti/tools/likelihoodfns.py')],
         technique='call-graph resolution with argument-to-parameter binding; def-use analysis of parameters',
         note='Calls through untyped receivers are judged only when every method of that name in the package accepts the '
              'option. Exceptions (with the reason) are in sa/data/c14_allow.txt. Trusted: names carry meaning - an option '
              'of the same name on both sides is the same option.'),
    dict(id='C15', title='Equal objects are interchangeable as keys',
         statement='Circuits, circuit labels, bases, Pauli operators and scores that compare equal hash equally, whatever their '
                   'class, and keep that hash; two of them that differ in a value that tells them apart (layers or line labels; '
                   'name, qubits, time stamps excepted, arguments or repetitions; elements or components; Pauli letters or '
                   'signs) are never found equal, nor is a sequence equal to one that merely begins with it. They can be '
                   'hashed without failing, and their two order relations compare the same values.',
         over=['inputs'], all='every class of the package with its own equality, every path of __eq__ and __hash__',
         why='a collision or a lost key needs two particular objects that nearly agree, or agree but are of different classes',
         files=[O + 'circuit.py', O + 'label.py', O + 'basis.py', 'pygsti/extras/idletomography/pauliobjs.py', 'pygsti/algorithms/scoring.py'],
         mech=[('Circuit.__eq__/__hash__/tup', O + 'circuit.py'), ('Label classes', O + 'label.py'), ('Basis.__eq__/__hash__', O + 'basis.py')],
         design='`__eq__` is run over all its paths in three-valued logic on two objects that differ in exactly one identifying field (everything else unknown): it must answer False. A comparison counts only if its two sides are the same expression over the two objects and that expression carries the field (through properties and helpers: on every path of the property the field is part of the value or has been compared with constants). Hash: closure of the fields it reads against those compared by every `__eq__` in the class order (a subclass may be compared by its base).',
         technique='field-dependence closure of __hash__ and __eq__; three-valued path evaluation of __eq__ under one differing field',
         note='Trusted: the tables of identifying fields and of fields that follow from others (sa/rules/c15.py). Array-like members '
              '(elementwise ==) and classes compared by identity are out of scope, as are comparisons with plain strings and numbers.'),
    dict(id='C16', title='A gauge transformation, depolarisation or rotation reaches every part of a model',
         statement='Transforming a model by a gauge element S replaces every operation G by inv(S) G S, every preparation by '
                   'inv(S) rho and every effect by S^T E, and does so for every member of every composite object: the factors of '
                   'composed operations and error generators, the unitary part and the generator of Lindblad operations, the '
                   'elements of instruments and the effects (or the shared error map) of POVMs. Depolarizing and rotating a model '
                   'or a composite object likewise change every member they name, with the amount that was given, and the inverse '
                   'matrix of a gauge element is that of its current matrix.',
         over=['inputs'], all='every transform, spam_transform, depolarize and rotate method of the package, every path through it',
         why='predictions stay gauge invariant only if no part is left out; tests transform a few kinds of model',
         files=[O + 'operation.py', O + 'spamvec.py', O + 'povm.py', O + 'instrument.py', O + 'explicitmodel.py', O + 'gaugegroup.py'],
         mech=[('LinearOperator/SPAMVec.transform', O + 'operation.py'), ('LindbladOp.transform/spam_transform', O + 'operation.py'),
               ('ExplicitOpModel.transform/depolarize/rotate', O + 'explicitmodel.py')],
         design='Each method is walked path by path with products normalised to a list of factors (dot, safedot, @, multi_dot, transposes, helpers inlined), S and inv(S) being the two matrices of the gauge element; at the end of every path the stored value must be the required product and every member collection (from `submembers`, as C10 determines it) must have been passed the request in an unfiltered loop with the same arguments. An unresolvable call on a member counts as passing it on; an unresolvable product is not judged. For models, each argument of depolarize/rotate is assumed given in turn.',
         technique='path-sensitive symbolic normal form of matrix products; member-coverage obligations per path',
         note='Trusted: the table of objects that are dictionaries of their members and of matrix fields (sa/rules/c16.py). Whether a '
              'parameterisation can represent the result is decided at run time by set_value and not judged.'),
    dict(id='C19', title='Rewriting a circuit or label changes nothing else',
         statement='Renaming, relabelling, copying or pickling a circuit label keeps all its other parts: its name, qubits, '
                   'arguments, time stamp, repetitions and components; a label rebuilt from the name of another takes that '
                   'one\'s arguments and time along. A circuit made from another circuit\'s layers (renamed, mapped to other '
                   'qubits, repeated, serialized, parallelized, filtered, translated ...) keeps its line labels, or has the '
                   'lines it was asked to have; where the qubits of its layers are mapped so are its lines.',
         over=['inputs'], all='every method of the label classes and of circuits that builds a new label or circuit; every place in the '
                              'package that rebuilds a label',
         why='a dropped part shows only for labels with arguments, times or repetitions, which the tests rarely use',
         files=[O + 'label.py', O + 'circuit.py', 'pygsti/construction/circuitconstruction.py'],
         mech=[('Label.map_state_space_labels/replacename', O + 'label.py'), ('Circuit.map_*/replace_*', O + 'circuit.py'),
               ('filter_circuit/translate_circuit', 'pygsti/construction/circuitconstruction.py')],
         design='For each constructor call returned by a label method the parts of self reaching its arguments are collected (attributes, slices resolved with the layout of the label tuple, locals expanded); for circuits the line-label argument must depend on the line labels of the source circuit or on a parameter for them.',
         technique='def-use closure of constructor arguments over the parts of the source object, per return path',
         note='Trusted: the layout of the label tuples and the list of functions that drop arguments on purpose (sa/rules/c19.py). '
              'Native (tuple) forms of a label carry no time by design.'),
    dict(id='C21', title='Every path can execute',
         statement='No path through the package fails because of how it is written rather than because of its input: every name '
                   'read is bound; a local variable is assigned before it is read on every path; a name imported from, or '
                   'looked up in, a module of the package, the standard library or numpy exists there; an attribute or '
                   'method used on self, on a class of the package or on a built-in value is defined for it; a call gives the '
                   'function it reaches the arguments it takes; a format string fits its arguments; and what is raised is an '
                   'exception. This includes error branches, options and modes that ordinary use does not reach.',
         over=['programs'],
         all='every function and class of the package, every name, attribute, resolvable call, import and format string',
         why='Python finds such mistakes only when the line runs; the tests run the usual paths',
         files=['pygsti'],
         mech=[('late binding of names, attributes and call signatures', 'pygsti')],
         technique='scope and symbol resolution, path-sensitive definite assignment, call-signature matching',
         note='Receivers of unknown type are only judged when nothing in the package or in the libraries it uses defines the '
              'attribute, or when every definition of the method rejects the call. Definite assignment takes loops to run '
              'at least once and a chain of tests of one subject to be exhaustive; functions with too many paths are given '
              'up (about 20). Trusted: sa/data/c21_names.txt (names the installed libraries define), reviewed lists '
              'c21_foreign.txt and c21_unbound.txt.'),
]
NOT_APPLICABLE = [
    dict(id='N01', title='Predicted probabilities equal the circuit dynamics',
         statement='For every model and circuit the predicted outcome probabilities are those of the product of the layer '
                   'superoperators applied to the preparation and measured by the POVM, and they agree between the '
                   'matrix, map, term and stabilizer simulators.',
         over=['inputs'], all='every model, circuit and outcome',
         why='tests compare simulators on a few one- and two-qubit models',
         files=[O + 'matrixforwardsim.py', O + 'mapforwardsim.py', O + 'termforwardsim.py'],
         mech=[('ForwardSimulator.probs', O + 'forwardsim.py')],
         reason='equality of floating-point matrix products over unbounded circuits: a numeric property of runtime arrays that '
                'no static argument in reach bounds'),
    dict(id='N02', title='Analytic derivatives equal the derivative of the value',
         statement='Every Jacobian and Hessian the package computes equals the derivative of the corresponding value with '
                   'respect to the parameters.',
         over=['inputs'], all='every parameterised object, objective function and parameter point',
         why='tests check finite differences at a few random points',
         files=[O + 'operation.py', O + 'spamvec.py', 'pygsti/tools/likelihoodfns.py'],
         mech=[('deriv_wrt_params', O + 'operation.py')],
         reason='numerical calculus over arrays; the formulae are numpy expressions whose derivatives no available static '
                'analysis can form (only the structural part, the parameter filter, is claimed: C09)'),
]

# planted bugs caught by another check than their own property (or by none)
CAUGHT = {}
