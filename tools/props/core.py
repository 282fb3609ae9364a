C = 'packages/vgrammar-core/src/'
P('D01', 'Dataflow runs every affected node exactly once, dependencies first',
  'After any set of grammars has been marked dirty, one evaluation of the dataflow runs each dirty grammar and each grammar downstream of a dirty one exactly once, never before a grammar it depends on, and runs nothing else. A grammar removed before it is reached is not run, and an evaluation always ends. Grammars of equal standing are ordered the same way whatever the insertion and removal history of the queue.',
  ['programs','histories','schedules'], 'for every acyclic dependency graph of up to 5 grammars, every construction order (including edges added after ranks were assigned), every dirty set, removal during evaluation, and every push/remove/pop history of the priority queue within the depth',
  'Tests run a few hand-written specs; ordering errors appear only for particular combinations of graph shape, construction order and dirty set.',
  [C+'view/dataflow.ts', C+'view/grammar-base.ts'],
  [('rank-ordered evaluation', 'view/dataflow.ts evaluate/_enqueue/_reRank'), ('priority queue', 'view/dataflow.ts uses Heap of view/data structure')])
P('D02', 'A grammar depends exactly on what its current spec references',
  'After any sequence of configuration calls on a mark, scale, data set, signal or coordinate, the grammars it depends on, and the number of references it holds on each, are exactly those named by its current specification. Releasing one of several references to the same grammar keeps the dependency; releasing the last one drops it, so that the grammar is re-evaluated when and only when something it still uses changes.',
  ['histories','programs'], 'for every sequence of setter calls (from/join, encode, state, group, layout, coordinate, depend, transform …) within the depth',
  'Reference counts drift only over sequences of re-configuration which single-shot tests never make.',
  [C+'view/grammar-base.ts', C+'view/mark.ts', C+'parse/util.ts'],
  [('attach/detach reference counting', 'view/grammar-base.ts'), ('reference extraction', 'parse/util.ts, parse/mark.ts')])
P('D03', 'A data grammar always equals its pipeline applied to its current input',
  'After any history of ingesting values, switching source, setting transforms, loading and changing parameters or upstream data, the output of a data grammar equals its transforms applied in order to its current input with the current parameter values. Upstream rows are neither reordered nor otherwise altered by a downstream pipeline, and listeners see the value committed by the evaluation.',
  ['histories','inputs'], 'for every sequence (to the depth) of values/source/transform/signal/upstream edits over a small alphabet of tables and pipelines',
  'Stale caches and forgotten upstreams need a particular sequence of edits between evaluations.',
  [C+'view/data.ts', C+'view/grammar-base.ts', C+'parse/transform.ts', C+'transforms/data/sort.ts', C+'transforms/data/filter.ts', C+'transforms/data/map.ts'],
  [('ingest/load/transform evaluation', 'view/data.ts'), ('transform option parsing', 'parse/transform.ts')])
P('D04', 'A scale equals the scale freshly built from its current specification',
  'After any history of domain, range and option edits and of changes in the data, signals and coordinates it references, a scale maps, inverts and reports domain, range and band widths exactly as a scale built afresh from the current specification and inputs. Linear, band, point and ordinal mappings are those of the specification (extent of the data, zero, min/max, padding, alignment).',
  ['histories','inputs'], 'for 13 scale types, every sequence (to the depth) of edits and input changes',
  'Scales are updated in place; leftovers of earlier configurations only show up after particular edit sequences.',
  [C+'view/scale.ts', C+'parse/scale.ts'],
  [('in-place reconfiguration', 'parse/scale.ts configureScale'), ('dependency bookkeeping', 'view/scale.ts domain/range/configure')])
P('D05', 'An updated view equals a view built from scratch for the same spec',
  'After any sequence of specification updates, grammar additions and removals, and data edits on a live view, the resulting grammars, elements, graphic attributes and scene structure and drawing order are those of a new view that was given the final specification (an element that is reused because its mark and key persist keeps what only its original enter channels set). Lookups by id, name, uid and type return exactly the grammars that are currently part of the view, and removed grammars influence nothing.',
  ['histories','programs'], 'for every sequence (to the depth) over an alphabet of specs and of add/remove/update operations',
  'Tests compare single updates; reuse of grammars and marks interacts with the history of earlier updates.',
  [C+'view/View.ts', C+'graph/view-diff.ts', C+'view/grammar-record.ts', C+'view/mark.ts', C+'graph/mark-tree.ts'],
  [('reuse of old grammars', 'view/View.ts parseSpec/updateSpec/reuse'), ('lookup tables', 'view/grammar-record.ts')])
P('D06', 'Size, padding and viewBox of a view are always mutually consistent',
  'After any sequence of width, height, padding, autofit and resize calls, the view width and height are the outer size minus the padding, the view box is the rectangle at the padding offset with that size, the renderer has the outer size, and whatever depends on these values has been re-evaluated.',
  ['histories'], 'for every sequence (to the depth) of width/height/padding/viewWidth/viewHeight/resize operations interleaved with runs',
  'The six values are separate signals connected by callbacks; tests look at one call at a time.',
  [C+'view/View.ts', C+'parse/view.ts', C+'view/signal.ts'],
  [('builtin size signals', 'parse/view.ts builtInSignals / View.initializeBuiltInSignals'), ('resize', 'view/View.ts resize')])
P('M01', 'Data join keeps identity by key and enter/update/exit are exact',
  'After any sequence of data sets, the elements of a mark are exactly one per distinct key (and group), in data or sort order; a key present before and after keeps its element and graphic, a new key enters, a missing key exits and is removed once nothing animates it. Each element carries exactly the data rows of its key, and enter channels are evaluated precisely for the elements which enter (for line-like marks also on updates), update channels for all present elements, each with its own row and element.',
  ['histories','inputs'], 'for every sequence (to the depth) of small tables with repeated, missing and reordered keys, with and without key, sort and group',
  'Identity mistakes depend on the order of keys across several consecutive data sets.',
  [C+'view/mark.ts', C+'graph/mark/differ.ts', C+'graph/element.ts', C+'graph/mark/encode.ts'],
  [('differ', 'graph/mark/differ.ts'), ('evaluateJoin', 'view/mark.ts')])
P('M02', 'Encoded attributes equal the composition of the current channels',
  'For every element the graphic attributes are the composition of its enter channels, evaluated when it entered, its update channels, evaluated with current data, parameters and scales, and the channels of its active states, whatever combination of constants, fields, scaled fields, bands, offsets, signals and functions they use. Re-evaluation after any change of data, parameters, scales or encodings gives every current channel the value it would have when encoded from scratch; enter channels keep the value they had when the element entered.',
  ['programs','histories','inputs'], 'for every combination of channel forms per channel group within bounds and every sequence of re-encodings',
  'The number of combinations of channel forms and statuses is beyond hand-written cases.',
  [C+'graph/element.ts', C+'graph/mark/encode.ts', C+'parse/util.ts', C+'graph/attributes/transform.ts'],
  [('invokeEncoder', 'graph/mark/encode.ts'), ('evaluate/encodeItems', 'graph/element.ts'), ('channel transforms', 'graph/attributes/*')])
P('M03', 'Element states overlay and restore attributes exactly',
  'After any sequence of adding, removing, replacing and clearing states on an element, including runtime attributes and data changes in between, its visible attributes are its normal attributes overlaid by the active states in order, and with no state left they are exactly the normal attributes. Querying states reports exactly the active ones.',
  ['histories'], 'for every sequence (to the depth) of state operations, encodings of states and data updates',
  'Restoration errors need overlapping states cleared in a particular order.',
  [C+'graph/element.ts', C+'view/mark.ts'],
  [('useStates/addState/removeState/clearStates', 'graph/element.ts'), ('state of a mark', 'view/mark.ts encodeState')])
P('M04', 'The scene tree mirrors the grammar tree',
  'At every point after an evaluation the graphics on the stage are exactly those of the live elements, nested as their marks are nested, in mark and z-index order, and each graphic leads back to its element. Released or removed marks, elements and views leave no graphic, listener or timer behind.',
  ['histories'], 'for every sequence (to the depth) of data changes, mark additions, removals, re-parenting and releases',
  'Leaks and misplaced graphics are invisible to tests which only look at attributes.',
  [C+'view/mark.ts', C+'view/group.ts', C+'graph/mark-tree.ts', C+'graph/canvas-renderer.ts', C+'graph/element.ts'],
  [('mark tree', 'graph/mark-tree.ts'), ('graphic parenting', 'graph/element.ts, view/group.ts')])
P('M05', 'Relative and grid layout place marks without overlap inside their parent',
  'For every combination of layout positions, alignments, paddings and element sizes the relative layout docks each mark on its side in order, never overlaps two docked marks on one side, gives what remains to the content, and the grid layout assigns each mark precisely the cells it asks for, with rows and columns filling the parent.',
  ['configurations'], 'for all combinations of positions/orders/paddings of up to three marks and grids up to 3x3',
  'Tests hold one layout snapshot.',
  [C+'graph/layout/relative.ts', C+'graph/layout/grid.ts', C+'graph/layout/layout.ts'],
  [('doRelativeLayout', 'graph/layout/relative.ts'), ('doGridLayout', 'graph/layout/grid.ts')])
P('M06', 'What a mark draws follows from its current channels, not from how it got them',
  'After any sequence of channel assignments (values, zeros, missing values), states and data, what the renderer is given equals a function of the current channels and states: boxes of 3d rects by their sizes or ends, rules by their ends, symbols by shape, image and fill, texts by their limits and kind of content, also as parts of glyphs and under animation. Lines and areas draw every point once, in order, in the style of its datum, break at undefined points, and bridge exactly the gaps when nulls are connected.',
  ['histories','inputs'], 'for every sequence (to the depth) of channel assignments and states of the marks with derived channels, and all lines of up to 5 points with any styles and undefined points',
  'Derived channels are computed from what changed and what was stored, so the order of changes matters.',
  [C+'graph/attributes/transform.ts', C+'graph/attributes/line.ts', C+'graph/attributes/helpers.ts', C+'graph/element.ts', C+'graph/glyph-element.ts'],
  [('transformAttributes', 'graph/attributes/transform.ts'), ('line segments', 'graph/attributes/line.ts')])
P('A01', 'Animations converge to the state an un-animated view would have',
  'Whatever the interleaving of data changes, encoding changes, state changes and clock ticks with enter, update, exit and state animations, once no animation is left running the attributes, elements and graphics are those of the same view without animations. Exiting elements are removed exactly when their exit animations have ended, and a key that returns while exiting is alive again.',
  ['schedules','histories'], 'for every interleaving (to the depth) of edits with ticks placed before, at and after animation boundaries',
  'The result depends on when in the course of an animation the next change arrives; the space of such schedules cannot be sampled by unit tests.',
  [C+'graph/animation/animate.ts', C+'graph/animation/animator.ts', C+'view/animate.ts', C+'graph/element.ts', C+'view/mark.ts'],
  [('animate by state', 'graph/animation/animate.ts'), ('exit release', 'view/mark.ts cleanExitElements')])
P('A02', 'Animation timelines start and end every channel exactly as configured',
  'For every animation timeline, each element starts after its start time plus delays and its one-by-one offset, each slice, loop and delayAfter takes exactly its configured share, channels interpolate from the previous to the next value and have exactly their final value at the end, and the total time reported is when the last element ends.',
  ['configurations','schedules'], 'for every combination of timing options (startTime, totalTime, oneByOne, loop, delay, delayAfter, slices, controlOptions) and every tick partition in the bounds',
  'Timing options multiply; each test fixes one.',
  [C+'graph/animation/animator.ts', C+'graph/animation/config.ts', C+'graph/animation/arranger.ts', C+'graph/animation/animate.ts'],
  [('timeline normalisation', 'graph/animation/config.ts'), ('arranger', 'graph/animation/arranger.ts')])
P('A03', 'Pausing, resuming and stopping animations behave as a state machine',
  'Under every sequence of run, pause, resume, stop (in place, at start, at end), enable and disable calls interleaved with ticks, progress is frozen exactly while paused, a stopped animation never changes attributes again, stop leaves attributes at the requested point, and start and end events are balanced for every animation state.',
  ['schedules','histories'], 'for every sequence (to the depth) of control operations and ticks',
  'Only particular orders of control calls, ticks and restarts expose mistakes.',
  [C+'graph/animation/animate.ts', C+'graph/animation/animator.ts', C+'graph/animation/arranger.ts', C+'view/animate.ts'],
  [('control operations', 'graph/animation/animator.ts, view/animate.ts')])
P('R01', 'Progressive rendering ends in the same picture as synchronous rendering',
  'With progressive rendering and progressive transforms, after all frames have run every mark has the elements, attributes and graphics of the synchronous evaluation, for any step size, table size, frame schedule and interruption by new data; each frame only ever shows a prefix, and the frames end.',
  ['schedules','inputs','histories'], 'for every table size, step, and point at which the frame chain is interrupted by an edit, within bounds',
  'Frame chains interrupted by edits are not reachable in synchronous unit tests.',
  [C+'view/mark.ts', C+'view/View.ts', C+'view/dataflow.ts', C+'view/data.ts', C+'transforms/data/sampling.ts'],
  [('progressive evaluate', 'view/View.ts doPreProgressive/handleProgressiveFrame, view/mark.ts evaluateProgressive')])
P('I01', 'Highlight, select and active interactions always match the event history',
  'After any sequence of triggering and resetting events on elements and blank area, the elements in the interaction states are exactly those determined by the last selection: for single and multiple selection, by element, key, group, name or legend item. After a reset no element is left in a state set by the interaction, removed interactions react to nothing, and start and reset notifications are sent exactly when the selection changes so.',
  ['histories'], 'for every event sequence (to the depth) over all elements and the blank area, and every interaction configuration',
  'Toggle logic errors need particular event orders.',
  [C+'interactions/element-highlight.ts', C+'interactions/element-select.ts', C+'interactions/element-active.ts', C+'interactions/toggle-state-mixin.ts', C+'interactions/base.ts', C+'interactions/element-highlight-by-key.ts', C+'interactions/element-highlight-by-group.ts'],
  [('toggle state mixin', 'interactions/toggle-state-mixin.ts'), ('event binding', 'interactions/base.ts')])
P('I02', 'Filtering interactions show exactly the selected rows and undo completely',
  'After any sequence of filter events, drill-down and roll-up, the data seen by the filtered marks is exactly the current source data restricted to the current selection, independent of earlier selections. Resetting or unbinding restores the full data.',
  ['histories'], 'for every event sequence (to the depth) on legend, range and drill components over small tables',
  'Accumulating filters only show after several selections and data updates.',
  [C+'interactions/filter.ts', C+'interactions/drill-down.ts', C+'interactions/roll-up.ts', C+'interactions/legend-filter.ts', C+'view/data.ts'],
  [('dataflow filter', 'interactions/filter.ts'), ('data filters', 'view/data.ts')])
P('I03', 'Event handlers fire exactly for the events their selector describes',
  'A signal, mark or view event configuration fires its callback or update once for each event in the stream that its selector, filters, between-markers, throttle/debounce and merges describe, and for no others. Unbinding or removing stops it completely.',
  ['histories','schedules'], 'for every event stream (to the length) including timing relative to throttle, debounce and between boundaries',
  'Stateful stream operators need streams with particular orders and times.',
  [C+'view/view-event-mixin.ts', C+'view/View.ts', C+'parse/event.ts', C+'view/signal.ts'],
  [('bindEvents', 'view/view-event-mixin.ts'), ('event selector', 'parse/event.ts')])
P('I04', 'Event selector parsing is total and faithful',
  'Every selector of the documented grammar is parsed to the source, type, mark, and filter it denotes, and rendering the parsed form back denotes the same selector. Parsing never throws, and selectors with several separators bind nothing.',
  ['inputs'], 'for every string generated from the grammar within the size bound',
  'The grammar is infinite; tests sample it.',
  [C+'parse/event.ts', C+'view/View.ts'],
  [('parseEventSelector', 'parse/event.ts')])
P('T01', 'Relational data transforms compute their relational meaning',
  'Filter, map, sort, fold, unfold, pick, join, range and identifier compute exactly the result of their relational definition for every table, keep the order they promise, are stable where they sort, and leave their input rows as they were (map, join and identifier add exactly their output fields to them). Signals given anywhere in the options are resolved to their current value.',
  ['inputs'], 'for all tables up to the size bound over a small value alphabet including missing and duplicate values, and all options',
  'Duplicates, missing values and empty inputs combine with options in ways no test lists.',
  [C+'transforms/data/filter.ts', C+'transforms/data/map.ts', C+'transforms/data/sort.ts', C+'transforms/data/fold.ts', C+'transforms/data/unfold.ts', C+'transforms/data/pick.ts', C+'transforms/data/join.ts', C+'transforms/data/range.ts'],
  [('transforms', 'transforms/data/*.ts')])
P('T02', 'Statistical transforms conserve and order what they aggregate',
  'Bins partition the extent: each row is counted in exactly one bin whose limits contain it and counts add up to the table. Kernel density estimates are the sum of the kernels at the grid points. Contour lines pass exactly through the level crossings of the grid edges. Down-sampling divides the rows in order into frames and yields one row per frame, in input order and of the requested size: lttb keeps the first and the last row, the aggregating modes carry the aggregate of their frame; input rows are not changed.',
  ['inputs'], 'for all tables up to the size bound over a value alphabet with ties and boundaries, and all options',
  'Boundary values and ties are where binning and sampling go wrong.',
  [C+'transforms/data/bin.ts', C+'transforms/data/kde.ts', C+'transforms/data/sampling.ts', C+'transforms/data/contour.ts'],
  [('bin', 'transforms/data/bin.ts'), ('sampling', 'transforms/data/sampling.ts')])
P('T03', 'Stack, dodge, pie and funnel tile their space without gaps or overlap',
  'Stacked intervals of one group are contiguous, in order, start at the baseline of the offset mode and have the size of their value (positive and negative separately when signed); dodged rectangles of a group share the band without overlap; pie angles are contiguous, proportional and fill the configured angle; funnel shapes have widths proportional to their values.',
  ['inputs','configurations'], 'for all tables up to the size bound with zero, negative and missing values and all options',
  'Zero totals, negative values and missing values combine with options.',
  [C+'transforms/data/stack.ts', C+'transforms/mark/dodge.ts', C+'transforms/data/pie.ts', C+'transforms/data/funnel.ts'],
  [('stack', 'transforms/data/stack.ts'), ('dodge', 'transforms/mark/dodge.ts'), ('pie', 'transforms/data/pie.ts')])
P('T04', 'Mark transforms place or hide elements exactly as their rule says',
  'Overlap removal hides exactly the elements which would come closer than the given distance to the last element shown before them (per group where groups are used) and shows the others; jitter stays within its band around the encoded position; symmetry centres sizes; circular relation places nodes on the circle in order. Channels which are only encoded on entering keep their value.',
  ['inputs','configurations'], 'for all point sets up to the size bound on a grid and all options',
  'Pairwise geometric relations grow with all placements; tests use one.',
  [C+'transforms/mark/mark-overlap.ts', C+'transforms/mark/jitter.ts', C+'transforms/mark/symmetry.ts', C+'transforms/data/circular-relation.ts'],
  [('mark overlap', 'transforms/mark/mark-overlap.ts')])
P('G01', 'Glyph parts always reflect the glyph element they belong to',
  'After any sequence of data, encoding and state changes, the parts of a glyph have exactly the attributes derived from the channels of the glyph element by its definition, and default attributes fill only what is not derived.',
  ['histories','inputs'], 'for every sequence (to the depth) of updates of the built-in and user-defined glyphs',
  'Partial updates write to only some of the parts.',
  [C+'graph/glyph-element.ts', C+'view/glyph.ts', C+'view/glyph-meta.ts', C+'glyph/boxplot.ts', C+'glyph/link-path.ts', C+'glyph/tree-path.ts', C+'glyph/violin.ts'],
  [('glyph element', 'graph/glyph-element.ts')])
