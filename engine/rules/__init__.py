from rules import fwd, labels, durable, errors, graph, finish, rollup, wiring, tables, query, idspace, ancestry, archive, pack, builder, places, cachelru, locks, immut, malformed
RULES = {
    "P01": labels.p01,
    "P02": durable.p02,
    "P03": durable.p03,
    "P04": graph.p04,
    "P05": graph.p05,
    "P06": finish.p06,
    "P07": errors.p07,
    "P08": tables.p08,
    "P09": wiring.p09,
    "P10": fwd.p10,
    "P11": fwd.p11,
    "P12": rollup.p12,
    "P13": places.p13,
    "P14": cachelru.p14,
    "P15": locks.p15,
    "P16": immut.p16,
    "P17": idspace.p17,
    "P18": ancestry.p18,
    "P21": query.p21,
    "P19": pack.p19,
    "P20": builder.p20,
    "P22": archive.p22,
    "P23": fwd.p23,
    "P24": malformed.p24,
}
