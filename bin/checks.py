CHECKS = {
 "L01": dict(parts=[dict(src="conv2d.cpp")]),
 "L02": dict(parts=[dict(src="conv1d.cpp")]),
 "L03": dict(parts=[dict(src="pool.cpp")]),
 "L04": dict(parts=[dict(src="pool.cpp", extra="-DAVG")]),
 "L05": dict(parts=[dict(src="gpool.cpp")]),
 "L06": dict(parts=[dict(src="fc.cpp")]),
 "L07": dict(parts=[dict(src="bnorm.cpp")]),
 "L08": dict(parts=[dict(src="pointwise.cpp", flavor="fast"), dict(src="pointwise.cpp", extra="-DPOS")]),
 "L09": dict(parts=[dict(src="softmax.cpp")]),
 "L10": dict(parts=[dict(src="lrn.cpp")]),
 "E01": dict(parts=[dict(src="effects.cpp")]),
 "E02": dict(parts=[dict(src="history.cpp"), dict(src="history.cpp", flavor="fast", extra="-DDEEP")]),
 "E03": dict(parts=[dict(src="conc.cpp", flavor="sched")]),
 "E04": dict(parts=[dict(src="reject.cpp")]),
 "E05": dict(parts=[dict(src="variants.cpp", variants=True)]),
 "T01": dict(parts=[dict(src="tensor.cpp")]),
 "T02": dict(parts=[dict(src="pad.cpp")]),
 "T03": dict(parts=[dict(src="tops.cpp")]),
 "T04": dict(parts=[dict(src="teq.cpp")]),
 "T05": dict(parts=[dict(src="tprint.cpp")]),
 "I01": dict(parts=[dict(src="weights.cpp")]),
 "I02": dict(parts=[dict(src="wdamage.cpp")], level="fault_enumeration"),
 "I03": dict(parts=[dict(src="reference.cpp")], level="fault_enumeration"),
 "I04": dict(parts=[dict(src="mnist.cpp"), dict(src="mnist.cpp", flavor="fast", extra="-DENDIAN")]),
 "I05": dict(parts=[dict(src="pgm.cpp")]),
 "I06": dict(parts=[dict(src="floats.cpp")]),
 "I07": dict(parts=[dict(src="jpeg.cpp")]),
 "I08": dict(parts=[dict(src="wfault.cpp", link="-Wl,--wrap=fopen,--wrap=fopen64")], level="fault_enumeration"),
}
for _i in ("N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08", "N09", "X01"): CHECKS[_i] = dict(importer=True)
CHECKS["N10"] = dict(importer=True, flavor="sched")
