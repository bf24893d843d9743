"""The suites: which specification modules generate, drive and judge what."""
SUITES = {
    "sim": dict(mc=[("MC_Sim", "MC_Sim.cfg")], gen="GenSim", depth=11, driver="sim", trace="Trace_Sim"),
    "order": dict(mc=[("MC_Order", "MC_Order.cfg")], mc_thorough=[("MC_Order", "MC_Order_deep.cfg")], gen="GenOrder", depth=19,
                  driver="order", trace="Trace_Order"),
    "pair": dict(mc=[("MC_Pair", "MC_Pair.cfg")], gen="GenPair", depth=23, driver="pair", trace="Trace_Pair"),
    "bench": dict(mc=[("MC_Bench", "MC_Bench.cfg")], mc_thorough=[("MC_Bench", "MC_Bench_deep.cfg")], gen="GenBench", depth=14,
                  driver="bench", trace="Trace_Bench"),
    "path": dict(mc=[("MC_Path", "MC_Path.cfg")], mc_thorough=[("MC_Path", "MC_Path_deep.cfg")], gen="GenPath", depth=7, driver="path", trace="Trace_Path"),
    "cpc": dict(mc=[("MC_Cpc", "MC_Cpc.cfg")], mc_thorough=[("MC_Cpc", "MC_Cpc_deep.cfg")], gen="GenCpc", depth=23, driver="cpc", trace="Trace_Cpc"),
}
SUITES["graph"] = dict(mc=[("MC_Graph", "MC_Graph.cfg")], mc_thorough=[("MC_Graph", "MC_Graph_deep.cfg")], gen="GenGraph", depth=21, driver="graph", trace="Trace_Graph")
SUITES["tool"] = dict(mc=[("MC_Tool", "MC_Tool.cfg")], gen="GenTool", depth=23, driver="tool", trace="Trace_Tool")
SUITES["sdk"] = dict(mc=[("MC_Sdk", "MC_Sdk.cfg")], gen="GenSdk", depth=49, driver="sdk", trace="Trace_Sdk")
SUITES["ana"] = dict(mc=[("MC_Ana", "MC_Ana.cfg")], gen="GenAna", depth=19, driver="ana", trace="Trace_Ana")
SUITES["cc"] = dict(mc=[("MC_Cc", "MC_Cc.cfg")], gen="GenCc", depth=17, driver="cc", trace="Trace_Cc")
SUITES["form"] = dict(mc=[("MC_Form", "MC_Form.cfg")], gen="GenForm", depth=26, driver="form", trace="Trace_Form")
SUITES["book"] = dict(mc=[("MC_Book", "MC_Book.cfg")], gen="GenBook", depth=18, driver="book", trace="Trace_Book")
