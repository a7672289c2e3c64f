"""What each property's check runs.

A part names the harness subsystem and
  mc      (module, configuration, least behaviours[, deep configuration, least])
  trace   module that checks recorded histories
  record  (input profile, histories quick, histories thorough)
"""

PLAN = {
    "C01": dict(parts=[dict(
        sub="jsontok", trace="JsonTokTrace",
        mc=[("JsonTokMC", "JsonTokMC_text", 90000, "JsonTokMC_text_deep", 400000),
            ("JsonTokMC", "JsonTokMC_each", 14000)],
        record=[("text", 3000, 60000), ("chars", 200, 1024), ("bigtok", 16, 16)])]),
    "C02": dict(parts=[dict(
        sub="jsontok", trace="JsonTokTrace",
        mc=[("JsonTokMC", "JsonTokMC_hist", 40000),
            ("JsonTokMC", "JsonTokMC_abort", 7000, "JsonTokMC_abort_deep", 45000),
            ("JsonTokHistMC", "JsonTokHistMC", 10000, "JsonTokHistMC_deep", 200000)],
        record=[("hist", 2500, 60000)])]),
    "C03": dict(parts=[dict(
        sub="jsontok", trace="JsonTokTrace",
        mc=[("JsonTokMC", "JsonTokMC_num", 100000, "JsonTokMC_num_deep", 900000),
            ("JsonTokMC", "JsonTokMC_str", 40000, "JsonTokMC_str_deep", 400000),
            ("JsonTokMC", "JsonTokMC_each", 14000), ("JsonTokMC", "JsonTokMC_quote", 14000)],
        record=[("lit", 2500, 60000), ("units", 1024, 1024), ("biglit", 16, 16)])]),
    "C04": dict(parts=[dict(
        sub="args", trace="ArgsTrace",
        mc=[("ArgsMC", "ArgsMC", 130000, "ArgsMC_deep", 1500000)],
        record=[("cmd", 3000, 60000), ("big", 16, 200)])]),
    "C05": dict(parts=[dict(
        sub="args", trace="ArgsTrace",
        mc=[("ArgsMC", "ArgsMC", 130000)],
        record=[("flag", 5000, 100000), ("big", 16, 200)])]),
    "C06": dict(parts=[dict(
        sub="argsrecv", trace="ArgsRecvTrace",
        mc=[("ArgsRecvMC", "ArgsRecvMC", 25000, "ArgsRecvMC_deep", 250000)],
        record=[("", 5000, 60000), ("big", 60, 600)])]),
    "C07": dict(parts=[dict(
        sub="argshelp", trace="ArgsHelpTrace",
        mc=[("ArgsMC", "ArgsMC_help", 24000, "ArgsMC_help_deep", 140000)],
        record=[("", 4000, 60000), ("big", 24, 200)])]),
    "C28": dict(parts=[dict(
        sub="args", trace="ArgsTrace",
        mc=[("LayoutMC", "LayoutMC", 1000, "LayoutMC_deep", 18000),
            ("LayoutMC", "LayoutMC_set", 4900, "LayoutMC_set_deep", 32000)],
        record=[("layout", 3000, 60000), ("biglayout", 16, 100)])]),
    "C08": dict(parts=[dict(
        sub="hash", trace="HashTrace",
        mc=[("ShaMC", "ShaMC", 200, "ShaMC_deep", 3500)],
        record=[("len", 300, 600), ("", 800, 2500), ("big", 12, 40), ("huge", 2, 4)])],
        assumptions=["Messages are bounded by 700 bytes plus 2^29 or 2^32 leading zero bytes; lengths that need "
                     "more than 36 bits are not run."]),
    "C09": dict(parts=[dict(
        sub="hmac", trace="HmacTrace",
        mc=[("HmacMC", "HmacMC", 500, "HmacMC_deep", 5000)],
        record=[("key", 150, 300), ("", 600, 1500), ("big", 4, 12)])]),
    "C10": dict(parts=[dict(
        sub="rng", trace="RngTrace",
        mc=[("RngMC", "RngMC", 29000, "RngMC_deep", 200000), ("RngMC", "RngMC_jump", 1800)],
        record=[("", 3000, 60000), ("long", 24, 200), ("jump", 300, 3000)])]),
    "C11": dict(parts=[dict(
        sub="str", trace="StrTrace",
        mc=[("StrMC", "StrMC", 160, "StrMC_deep", 340)],
        record=[("natural", 8000, 60000), ("bignatural", 24, 96)])]),
    "C12": dict(parts=[dict(
        sub="str", trace="StrTrace",
        mc=[("SymMC", "SymMC", 12000, "SymMC_deep", 130000)],
        record=[("chars", 4352, 4352), ("", 4000, 60000), ("big", 24, 96)])],
        assumptions=["Which characters are alphabetic or numeric is taken from the Rust standard library."]),
    "C13": dict(parts=[dict(
        sub="tagged", trace="TaggedTrace",
        mc=[("TaggedMC", "TaggedMC", 46000, "TaggedMC_deep", 1600000)],
        record=[("", 8000, 60000)])]),
    "C17": dict(parts=[
        dict(sub="own", trace="OwnTrace",
             mc=[("OwnMC", "OwnMC", 14000, "OwnMC_deep", 120000), ("OwnMC", "OwnMC_two", 77000)],
             record=[("", 8000, 60000)]),
        dict(sub="uncaught", trace="UncaughtTrace", mc=[], record=[("", 500, 5000)])]),
    "C14": dict(parts=[dict(
        sub="endian", trace="EndianTrace",
        mc=[("EndianMC", "EndianMC", 24000, "EndianMC_deep", 97000)],
        record=[("", 6000, 60000)])]),
    "C15": dict(parts=[dict(
        sub="cell", trace="CellTrace",
        mc=[("CellMC", "CellMC", 100000, "CellMC_deep", 1000000)],
        record=[("", 6000, 60000)])]),
    "C16": dict(parts=[dict(
        sub="mem", trace="MemTrace",
        mc=[("MemMC", "MemMC", 1200)],
        record=[("", 6000, 60000), ("big", 40, 160)])]),
    "C25": dict(parts=[dict(
        sub="buf", trace="BufTrace",
        mc=[("BufMC", "BufMC", 50000, "BufMC_deep", 4000000), ("BufMC", "BufMC_stream", 1000000)],
        record=[("", 6000, 30000), ("big", 300, 1000)])],
        assumptions=["Bytes written to the spare capacity of a vector are retained until they are committed, even if "
                     "the vector is enlarged in between."]),
    "C22": dict(parts=[dict(
        sub="tok", trace="TokTrace",
        mc=[("TokMC", "TokMC_text", 5000, "TokMC_text_deep", 80000), ("TokMC", "TokMC_num", 44000, "TokMC_num_deep", 440000),
            ("TokMC", "TokMC_str", 69000, "TokMC_str_deep", 1100000),
            ("TokMC", "TokMC_each", 13000)],
        record=[("", 5000, 30000), ("big", 48, 192)])]),
    "C23": dict(parts=[dict(
        sub="tok", trace="TokTrace",
        mc=[("TokMC", "TokMC_arrive", 49000, "TokMC_arrive_deep", 1300000)],
        record=[("arrive", 5000, 30000), ("bigarrive", 32, 128)])]),
    "C24": dict(parts=[dict(
        sub="tok", trace="TokTrace",
        mc=[("TokMC", "TokMC_tree", 66000, "TokMC_tree_deep", 590000), ("TokMC", "TokMC_doc", 1700),
            ("TokMC", "TokMC_treearrive", 75000)],
        record=[("tree", 5000, 60000), ("bigtree", 36, 144)])]),
    "C18": dict(parts=[dict(
        sub="sig", trace="SigTrace",
        mc=[("SigMC", "SigMC_any", 5200, "SigMC_any_deep", 88000), ("SigMC", "SigMC_nest", 130000, "SigMC_nest_deep", 900000),
            ("SigMC", "SigMC_long", 16000, "SigMC_long_deep", 110000)],
        record=[("", 6000, 60000), ("big", 150, 600)])]),
    "C19": dict(parts=[dict(
        sub="sig", trace="SigTrace",
        mc=[("SigMC", "SigMC_walk", 90000, "SigMC_walk_deep", 2000000), ("SigMC", "SigMC_walklong", 26000)],
        record=[("walk", 6000, 30000), ("bigwalk", 80, 320)])]),
    "C20": dict(parts=[dict(
        sub="dvar", trace="DvarTrace",
        mc=[("DvarMC", "DvarMC_enc", 88000, "DvarMC_enc_deep", 880000), ("DvarMC", "DvarMC_encmsg", 60000, "DvarMC_encmsg_deep", 100000),
            ("DvarMC", "DvarMC_encfault", 12000)],
        record=[("enc", 6000, 30000), ("bigenc", 30, 120)])],
        assumptions=["Bytes written to the spare capacity of a vector are retained until they are committed, even if "
                     "the vector is enlarged in between."]),
    "C21": dict(parts=[dict(
        sub="dvar", trace="DvarTrace",
        mc=[("DvarMC", "DvarMC_dec", 310000, "DvarMC_dec_deep", 1370000), ("DvarMC", "DvarMC_decmsg", 25000, "DvarMC_decmsg_deep", 100000),
            ("DvarMC", "DvarMC_decfault", 1000)],
        record=[("dec", 6000, 30000), ("bigdec", 20, 80), ("wild", 6000, 30000)])]),
    "C26": dict(parts=[dict(
        sub="image", trace="ImageTrace",
        mc=[("ImageMC", "ImageMC_file", 8000, "ImageMC_file_deep", 100000)],
        record=[("file", 2000, 40000), ("sum", 2000, 40000), ("bigsum", 20, 80), ("stub", 1, 1)])]),
    "C27": dict(parts=[dict(
        sub="image", trace="ImageTrace",
        mc=[("ImageMC", "ImageMC_abi", 10000)],
        record=[("abi", 4000, 60000)])],
        assumptions=["The host is a little-endian machine of 64 bits; ELF structures of the other byte order are "
                     "read as native numbers by design and not judged."]),
}
