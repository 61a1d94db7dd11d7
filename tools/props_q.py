# Property texts: quantities
from props_s import P

QU = "mlmc/quantity/quantity.py"
QT = "mlmc/quantity/quantity_types.py"
QE = "mlmc/quantity/quantity_estimate.py"

PROPS = [
P("Q01", "Quantity arithmetic equals the same arithmetic on its samples",
  "For every arithmetic operator, with quantities or plain numbers on either side, and for numpy universal functions, the samples of the result are the operator applied to the samples of the operands in the written order, sample by sample, fine with fine and coarse with coarse. "
  "Plain values act as constants of every sample; operand types must agree.",
  ["inputs", "programs"], "all operators, operand orders, mixed constants, shapes and chunks",
  "The space of expressions is unbounded; tests compute a few and mostly symmetric ones.",
  [QU], [("operators", QU + " Quantity.__add__ … __rmod__"), ("ufuncs", QU + " Quantity.__array_ufunc__ / _method"), ("constants", QU + " QuantityConst, Quantity.wrap, create_quantity")]),
P("Q02", "Selection keeps exactly the samples satisfying all conditions, as pairs",
  "A comparison of quantities marks a sample only if the relation holds for every component of both its fine and coarse part. select keeps exactly the samples marked by all its conditions and keeps fine and coarse values together; conditions that are not boolean quantities are refused. "
  "Quantities reduced by different selections cannot be combined.",
  ["inputs", "programs"], "all conditions, numbers of conditions, shapes, selections combined in expressions",
  "Tests select by few scalar conditions; mixing selections of equal sizes would silently pair unrelated samples.",
  [QU], [("comparison masks", QU + " Quantity._process_mask, __lt__ … __ne__"), ("selection", QU + " Quantity.select"), ("compatibility", QU + " Quantity.__init__")]),
P("Q03", "Structured quantities address exactly the stored components",
  "Sizes and offsets of scalar, array, dictionary, field and time series types tile the flat result vector in the order in which it was stored: each key, location, time or index denotes its own disjoint block. "
  "The root quantity of a storage nests quantity, time and location as declared by the result format, quantities combined into a structure keep each part under its own key, and interpolation in time uses the times of its two neighbours.",
  ["inputs", "configurations"], "all nestings, numbers of keys, item sizes, times and locations",
  "Tests use one fixed format with equal item sizes, where permuted or shifted blocks often coincide.",
  [QT, QU], [("type layout", QT + " QType.size / get_key"), ("root quantity", QU + " make_root_quantity"), ("combination", QU + " QArray / QDict / QField / QTimeSeries"), ("interpolation", QU + " TimeSeriesType / time_interpolation")]),
P("Q04", "Cached samples are never those of another quantity, level or chunk",
  "samples(chunk) of a quantity returns the samples of this very quantity for the asked level and chunk, whatever was evaluated before: two quantities never share a cache entry, also if one was garbage collected, and no entry survives a change of what it depends on.",
  ["histories", "programs"], "all sequences of evaluations over quantities, levels and chunks, and all object lifetimes",
  "A collision needs a particular history of evaluations and object lifetimes.",
  [QU], [("cache key", QU + " Quantity.get_cache_key / samples")]),
P("Q05", "Indexing picks the addressed components, in samples and in estimated means",
  "quantity[key] yields exactly the components that the key addresses in an array of the declared shape (items of any structure, stored in C order) or the block of the given key, with samples and fine/coarse parts untouched and with the matching type. "
  "Indexing an estimated mean picks the same components of level means and variances as estimating the indexed quantity.",
  ["inputs", "programs"], "all shapes, integer, range and tuple keys, nested item structures and levels",
  "Tests index arrays of scalars by single integers; tuple keys, ranges and structured items need a combination they do not build.",
  [QU, QT], [("array items", QT + " ArrayType.get_key / _make_getitem_op"), ("quantity items", QU + " Quantity.__getitem__"), ("mean items", QU + " QuantityMean.__getitem__")]),
]
