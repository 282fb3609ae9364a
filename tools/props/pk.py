K = 'packages/'
P('C01', 'Coordinates convert and invert consistently under any transformation',
  'For every cartesian or polar coordinate with any chain of translate, rotate, scale and transpose operations, converting an abstract point and inverting the result gives the point back, conversion equals the mathematical definition (translation and scaling act on the abstract point, rotation about the origin and transposition on the converted one), ranges and axis positions agree with conversion, and settings and operations which are changed or withdrawn leave no residue. Marks of a coordinate are drawn where the coordinate puts their encoded position.',
  ['inputs','histories','configurations'], 'for every configuration and operation sequence (to the depth) on a grid of points, including degenerate radii and angles beyond one turn',
  'Transposition, reversal and angle normalisation interact.',
  [K+'vgrammar-coordinate/src/base.ts', K+'vgrammar-coordinate/src/cartesian.ts', K+'vgrammar-coordinate/src/polar.ts'],
  [('convert/invert', 'cartesian.ts, polar.ts')])
P('H01', 'Treemap tiles are proportional, disjoint and contained in their parent',
  'For every hierarchy, splitting method, padding, gap, label and depth setting, siblings are pairwise disjoint, contained in the parent, their areas are proportional to their values when no padding is set and the values of the children add up to that of the parent, and then they fill the parent. Node values, depths, keys and flattened rows describe the input hierarchy completely.',
  ['inputs','configurations'], 'for all ordered trees up to the size bound with values from a small alphabet (zero included), all split types and paddings',
  'Tilers have case distinctions by value order and count.',
  [K+'vgrammar-hierarchy/src/treemap/layout.ts', K+'vgrammar-hierarchy/src/treemap/squarify.ts', K+'vgrammar-hierarchy/src/treemap/binary.ts', K+'vgrammar-hierarchy/src/treemap/dice.ts', K+'vgrammar-hierarchy/src/treemap/slice.ts', K+'vgrammar-hierarchy/src/utils.ts', K+'vgrammar-hierarchy/src/format.ts'],
  [('tilers', 'treemap/*.ts'), ('node tree building', 'utils.ts')])
P('H02', 'Sunburst and tree layouts keep structure, order and spacing',
  'Sunburst sectors of siblings are contiguous, in order, proportional to their values and nested in the angle range of the parent, with radii by level. Tree and cluster layouts keep depth on the main axis, keep siblings in order, separate nodes of one level, centre parents over their children, and emit one link per parent-child pair.',
  ['inputs','configurations'], 'for all ordered trees up to the size bound, all directions, layouts and alignments',
  'Tidy-tree threads and shifts fail only for particular shapes.',
  [K+'vgrammar-hierarchy/src/sunburst/layout.ts', K+'vgrammar-hierarchy/src/tree/layout.ts', K+'vgrammar-hierarchy/src/tree/tree.ts', K+'vgrammar-hierarchy/src/tree/cluster.ts'],
  [('tidy tree', 'tree/tree.ts'), ('sunburst', 'sunburst/layout.ts')])
P('H03', 'Circle packing never overlaps and always encloses',
  'Circles of siblings do not overlap, every circle lies inside its parent, radii relate as the square roots of the values, and the root fits the view, deterministically.',
  ['inputs','configurations'], 'for all trees up to the size bound over a value alphabet and padding settings',
  'The front-chain algorithm has rare geometric cases.',
  [K+'vgrammar-hierarchy/src/circle-packing/layout.ts', K+'vgrammar-hierarchy/src/circle-packing/siblings.ts', K+'vgrammar-hierarchy/src/circle-packing/enclose.ts'],
  [('packSiblings', 'circle-packing/siblings.ts'), ('enclose', 'circle-packing/enclose.ts')])
P('S01', 'Sankey layout conserves flow and keeps links attached to nodes',
  'For every acyclic flow network the sankey layout gives each node the larger of inflow and outflow (or its own value), places a source strictly before its target, keeps nodes of a layer disjoint and inside the view, and attaches each link to both its nodes at its thickness, without overlapping other links on the same side. Highlighting marks exactly the related nodes and links.',
  ['inputs','configurations'], 'for all small networks (nodes and link sets up to the bound), alignments, orientations and gap options',
  'Relaxation and alignment depend on the topology.',
  [K+'vgrammar-sankey/src/layout.ts', K+'vgrammar-sankey/src/format.ts', K+'vgrammar-sankey/src/hierarchy.ts', K+'vgrammar-sankey/src/sankey-highlight.ts'],
  [('layout', 'layout.ts')])
P('J01', 'Projections reflect their current configuration and fit their data',
  'A projection grammar maps coordinates as the configured projection does after any sequence of edits, points inside the projection invert to themselves, and a fitted projection places its data inside the fitted box, touching it. Geo paths are those of the current projection.',
  ['histories','inputs'], 'for every projection type and every sequence (to the depth) of option edits over small geometries',
  'In-place configuration leaves residues of the earlier one.',
  [K+'vgrammar-projection/src/projection.ts', K+'vgrammar-projection/src/projections.ts', K+'vgrammar-projection/src/geo-path.ts'],
  [('projection grammar', 'projection.ts')])
P('W01', 'Word cloud layouts place words without collision inside the view',
  'For every list of words and every layout and shape option, placed words do not overlap when drawn centred on an alphabetic baseline, lie inside the view (unless clipping is asked for), keep the order and proportions of their sizes and the angles asked for, are words of the input, each at most once (unless repeated filling is asked for), and words which fit easily are all placed. Layouts run in several frames, of any number of words or any time per frame, end in the same result as synchronous ones.',
  ['inputs','schedules'], 'for all small word lists over lengths and weights, all layout and spiral types, and all frame schedules',
  'Collision masks are bit arrays with edge cases by position.',
  [K+'vgrammar-wordcloud/src/cloud-layout.ts', K+'vgrammar-wordcloud/src/fast-layout.ts', K+'vgrammar-wordcloud/src/grid-layout.ts', K+'vgrammar-wordcloud/src/wordcloud.ts', K+'vgrammar-wordcloud/src/base.ts', K+'vgrammar-wordcloud/src/spirals.ts'],
  [('cloud layout', 'cloud-layout.ts'), ('fast layout', 'fast-layout.ts'), ('grid layout', 'grid-layout.ts')])
P('V01', 'Venn areas follow the set sizes and regions follow the set memberships',
  'For one, two and three sets circle areas are proportional to set sizes, disjoint sets do not intersect, contained sets are nested and two-set overlaps have the area of their intersection, all inside the view. Labels lie within their region and the path of a region is that of the intersection.',
  ['inputs'], 'for all size assignments from a small alphabet on up to three sets',
  'Degenerate overlaps (empty, equal, contained) each take another code path.',
  [K+'vgrammar-venn/src/venn.ts', K+'vgrammar-venn/src/utils/layout/layout.ts', K+'vgrammar-venn/src/utils/layout/greedy-layout.ts', K+'vgrammar-venn/src/utils/solution/common.ts', K+'vgrammar-venn/src/utils/path.ts', K+'vgrammar-venn/src/utils/label.ts'],
  [('venn layout', 'utils/layout/*')])
P('U01', 'Field access, comparison, extent and regression helpers match their definition',
  'Field accessors follow exactly the path written (dots, brackets, quotes, escapes), malformed paths are reported, comparators define a total preorder consistent with their fields and orders for values of one kind (missing values before NaN before the others), extents ignore invalid values, linear regression minimises the squared error, and percentages and view boxes are parsed as written.',
  ['inputs'], 'for all paths, value tuples and tables up to the size bound',
  'Path syntax and mixed types are open-ended.',
  [K+'vgrammar-util/src/splitAccessPath.ts', K+'vgrammar-util/src/field.ts', K+'vgrammar-util/src/compare.ts', K+'vgrammar-util/src/extent.ts', K+'vgrammar-util/src/regression-linear.ts', K+'vgrammar-util/src/accessor.ts', K+'vgrammar-util/src/accessors.ts'],
  [('splitAccessPath', 'splitAccessPath.ts'), ('compare', 'compare.ts')])
P('L01', 'A plot translates to a spec that encodes each datum where its scales put it',
  'For every semantic mark and every combination of its channels, scales, axes, legends and coordinates, the plot yields marks whose elements are one per datum at the positions given by the scales, axes use the same scales as the marks, and updating or re-running a plot, through its marks or by a new spec, gives the same picture as a new plot; legends filter rows and keep colours.',
  ['programs','histories'], 'for every semantic mark type and channel combination within bounds, and every sequence of plot operations',
  'Combinations of marks, coordinates and scales multiply.',
  [K+'vgrammar-plot/src/plot.ts', K+'vgrammar-plot/src/semantic-mark.ts', K+'vgrammar-plot/src/interval.ts', K+'vgrammar-plot/src/line.ts', K+'vgrammar-plot/src/symbol.ts'],
  [('semantic mark translation', 'semantic-mark.ts'), ('plot', 'plot.ts')])
P('I05', 'Brushes mark exactly the elements which their region covers',
  'After any sequence of drawing, moving and clearing a region with the pointer, the elements of the selected marks in the states of a brush are exactly those which the region last operated covers (symbols by their centre, rectangles however they are given and other graphics by their box; bands over the whole range, polygons by their shape), the others are blurred where the brush highlights, and no element keeps a state when the region is cleared. Callbacks and events of the view tell start, update, end and reset with those elements, other marks are left alone, and a removed brush does nothing.',
  ['histories','inputs','configurations'], 'for every sequence of pointer gestures to the depth, every kind of brush, region, geometry, offset and option',
  'Geometry, order of gestures, and options of the brush multiply.',
  [K+'vgrammar-core/src/interactions/brush-base.ts', K+'vgrammar-core/src/interactions/brush-highlight.ts', K+'vgrammar-core/src/interactions/brush-active.ts'],
  [('brush component and region tests', 'brush-base.ts'), ('states', 'brush-highlight.ts, brush-active.ts')])
P('I06', 'Navigation shows exactly the range which the gestures ask for',
  'After any sequence of zooming, scrolling, dragging and resetting gestures with any navigation interaction, the visible range of each dimension is the initial one changed by the gestures in turn, whether it is applied to scales, by filtering data, to linked data zooms or scroll bars or is only reported; it stays inside the whole, positions and filtered elements follow it, gestures which are applied at their end add up to the same, and removing the interaction restores the view.',
  ['histories','configurations'], 'for every sequence (to the depth) of gestures, navigation type, target and option',
  'The range is kept between gestures in several places, by several handlers.',
  [K+'vgrammar-core/src/interactions/view-navigation-base.ts', K+'vgrammar-core/src/interactions/view-zoom-mixin.ts', K+'vgrammar-core/src/interactions/view-scroll-mixin.ts', K+'vgrammar-core/src/interactions/view-drag-mixin.ts', K+'vgrammar-core/src/interactions/view-utils.ts', K+'vgrammar-core/src/interactions/view-roam.ts', K+'vgrammar-core/src/view/scale.ts'],
  [('gestures to ranges', 'view-zoom-mixin.ts, view-utils.ts'), ('targets', 'view-navigation-base.ts')])
P('I07', 'Tooltips and crosshairs show what is under the pointer',
  'After any sequence of pointer moves, leaves, pauses, changes of data and removals, a tooltip is shown exactly while the pointer is over an element of its marks (or, for tooltips of a dimension, inside its container and not over an avoided mark), at the position of the pointer and with the title and rows which its options make of the data there; a crosshair is drawn in its container through the pointer, or through the band of the scale at the pointer, across the whole extent; nothing appears again after the pointer has left, and nothing remains after the interaction has been removed.',
  ['histories','schedules','configurations'], 'for every sequence (to the depth) of moves and pauses, kind of row, type, shape, scale and container',
  'Moves are throttled, so what is shown depends on when the last one is handled; the geometry has one case per type, shape and kind of scale.',
  [K+'vgrammar-core/src/interactions/tooltip.ts', K+'vgrammar-core/src/interactions/dimension-tooltip.ts', K+'vgrammar-core/src/interactions/base-tooltip.ts', K+'vgrammar-core/src/interactions/crosshair.ts'],
  [('throttled display', 'tooltip.ts, dimension-tooltip.ts'), ('geometry', 'crosshair.ts')])
P('I08', 'Fish eyes magnify exactly around the pointer and leave nothing behind',
  'After any sequence of entering, moving, leaving, pausing, resetting and changes of scales, the scales of a fish eye interaction are magnified around the last place of the pointer which has been handled while it was active, with the radius and distortion of each dimension, and are plain otherwise; delayed moves of an earlier gesture change nothing, and after the interaction is removed all positions are those of the plain scales.',
  ['histories','schedules','configurations'], 'for every sequence (to the depth) of events and pauses, options and kind of scale',
  'Moves are throttled and the lens is a part of the state of scales which several paths set and clear.',
  [K+'vgrammar-core/src/interactions/fish-eye.ts', K+'vgrammar-core/src/interactions/base.ts', K+'vgrammar-core/src/view/scale.ts'],
  [('lens', 'fish-eye.ts'), ('lens of scales', 'scale.ts')])
P('C02', 'Components show the current scales, data, targets, options and theme',
  'Axes and grids show the ticks of their scale along its coordinate, legends the domain, colours and shapes of their scales, labels one text for each item of each target, data zooms the preview of their data, sliders, titles, scroll bars and players their limits, texts, boxes and sources, with the type that fits their scale; after any sequence of changes of scales, data, targets, options, encodings, signals, coordinates and themes a component is the same as one which is built from scratch.',
  ['histories','configurations'], 'for every kind of component and every sequence of changes to the depth',
  'Each option is followed by its own reference, cached type and encoder; tests set each once.',
  [K+'vgrammar-core/src/view/component.ts', K+'vgrammar-core/src/component/axis.ts', K+'vgrammar-core/src/component/grid.ts', K+'vgrammar-core/src/component/legend.ts', K+'vgrammar-core/src/component/label.ts', K+'vgrammar-core/src/component/datazoom.ts', K+'vgrammar-core/src/component/scrollbar.ts', K+'vgrammar-core/src/component/slider.ts', K+'vgrammar-core/src/component/title.ts', K+'vgrammar-core/src/component/player.ts', K+'vgrammar-core/src/component/scale.ts'],
  [('component encoders', 'component/*'), ('joins of components', 'view/component.ts')])
