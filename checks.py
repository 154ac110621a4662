COMMON_ASSUMPTIONS = []
def J(src, entry, reach=("done",), **kw): return dict(src=src, entry=entry, reach=list(reach), **kw)
CHECKS = {}
CHECKS["C01"] = {"jobs": [J("codec.cpp", "h_base16", defs={"NB": 4}), J("codec.cpp", "h_hexfilter", defs={"NB": 4}), J("codec.cpp", "h_junk16", defs={"NB": 5}), J("codec.cpp", "h_reuse16", defs={"NR": 4})]}
CHECKS["C02"] = {"jobs": [J("codec.cpp", "h_base32", defs={"NB": 11}), J("codec.cpp", "h_reuse32", defs={"NR": 6})]}
CHECKS["C03"] = {"jobs": [J("codec.cpp", "h_base64", defs={"NB": 7}), J("codec.cpp", "h_base64old", defs={"NB": 7}), J("codec.cpp", "h_reuse64", defs={"NR": 4})]}
CHECKS["C04"] = {"jobs": [J("codec.cpp", "h_base85", defs={"NB": 6}), J("codec.cpp", "h_base85dec", defs={"NC": 7}), J("codec.cpp", "h_base85rt", qtime=300), J("codec.cpp", "h_junk85", defs={"NB": 6}), J("codec.cpp", "h_reuse85", defs={"NR": 5})]}
CHECKS["C05"] = {"jobs": [J("textcodec.cpp", "h_url", defs={"NB": 3, "NU": 2}), J("textcodec.cpp", "h_urldec", defs={"NB": 3, "NU": 2}), J("textcodec.cpp", "h_urljunk", defs={"NB": 4, "NU": 2}, reach=["done", "truncated"]), J("textcodec.cpp", "h_query", defs={"NB": 3, "NU": 2, "NP": 5}, reach=["done", "two fields"]), J("textcodec.cpp", "h_query3", defs={"NU": 2})]}
CHECKS["C06"] = {"jobs": [J("textcodec.cpp", "h_utf8", defs={"NB": 3, "NU": 2}), J("textcodec.cpp", "h_utf8wide", defs={"NB": 3, "NU": 2}), J("textcodec.cpp", "h_utf8junk", defs={"NB": 3, "NU": 2}, reach=["done", "rejected", "partial", "skipped"])]}
CHECKS["J01"] = {"jobs": [J("json.cpp", "h_jstr", defs={"NB": 2, "NU": 1, "NS": 3}), J("json.cpp", "h_jesc", defs={"NU": 2, "NS": 3}), J("json.cpp", "h_jnum", defs={"NU": 1, "NS": 3}), J("json.cpp", "h_jlit", defs={"NU": 1, "NS": 3}, reach=["integer", "big"]), J("json.cpp", "h_jtree", defs={"NU": 1, "NS": 3, "NN": 4})]}
CHECKS["J02"] = {"jobs": [J("json.cpp", "h_jjunk", defs={"NU": 1, "NS": 3, "NB": 3}, reach=["done", "rejected", "accepted"]), J("json.cpp", "h_jws", defs={"NU": 1, "NS": 3}), J("json.cpp", "h_jtrunc", defs={"NU": 1, "NS": 3}, reach=["done", "rejected"])]}
CHECKS["J03"] = {"jobs": [J("json.cpp", "h_jobj", defs={"NU": 1, "NS": 3}), J("json.cpp", "h_jarr", defs={"NU": 1, "NS": 3}), J("json.cpp", "h_jkeys", defs={"NU": 1, "NS": 3, "KL": 4}, thorough={"defs": {"NU": 1, "NS": 3, "KL": 6}}), J("json.cpp", "h_jneq", defs={"NU": 1, "NS": 3}), J("json.cpp", "h_jpath", defs={"NU": 1, "NS": 3})]}
CHECKS["D01"] = {"jobs": [J("seq.cpp", "h_arrthrow", name="throw", defs={"ALLOC": "StdAlloc"}), J("seq.cpp", "h_arrthrow", name="throwsmall", defs={"ALLOC": "SmallAlloc<3>"}), J("seq.cpp", "h_arr", name="long", defs={"ALLOC": "StdAlloc", "PRE": 8, "NS": 1, "CNT": 4}, thorough={"defs": {"ALLOC": "StdAlloc", "PRE": 11, "NS": 1, "CNT": 6}}), J("seq.cpp", "h_arr", name="std", defs={"ALLOC": "StdAlloc"}, thorough={"defs": {"ALLOC": "StdAlloc", "NS": 3}}), J("seq.cpp", "h_arr", name="small", defs={"ALLOC": "SmallAlloc<3>"}, thorough={"defs": {"ALLOC": "SmallAlloc<3>", "NS": 3}}), J("seq.cpp", "h_arr", name="static", defs={"ALLOC": "StaticAlloc<4>", "LIMIT": 4}, thorough={"defs": {"ALLOC": "StaticAlloc<4>", "LIMIT": 4, "NS": 3}})]}
CHECKS["D02"] = {"jobs": [J("seq.cpp", "h_dqthrow"), J("seq.cpp", "h_deque", defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("seq.cpp", "h_queue", defs={"NS": 7}, thorough={"defs": {"NS": 10}})]}
CHECKS["D03"] = {"jobs": [J("seq.cpp", "h_listthrow"), J("seq.cpp", "h_list", thorough={"defs": {"NS": 3}})]}
CHECKS["D04"] = {"jobs": [J("tree.cpp", "h_mapthrow"), J("tree.cpp", "h_map", defs={"NI": 4, "NE": 1}, thorough={"defs": {"NI": 5, "NE": 1}}), J("tree.cpp", "h_mapbig"), J("tree.cpp", "h_mapops"), J("tree.cpp", "h_set")]}
CHECKS["D05"] = {"jobs": [J("tree.cpp", "h_multi"), J("tree.cpp", "h_mapreduce")]}
CHECKS["D06"] = {"jobs": [J("heap.cpp", "h_sort", defs={"NV": 5}, thorough={"defs": {"NV": 6}}), J("heap.cpp", "h_heapmid", defs={"NV": 5}, thorough={"defs": {"NV": 7}}), J("heap.cpp", "h_pq", defs={"NS": 4}, thorough={"defs": {"NS": 5}}), J("heap.cpp", "h_sortflt", defs={"NS": 4}, thorough={"defs": {"NS": 5}})]}
I01 = dict(defs={"NB": 4, "OPS": 3}, thorough={"defs": {"NB": 6, "OPS": 4}})
CHECKS["I01"] = {"jobs": [J("iter.cpp", e, **I01) for e in ("h_convread", "h_chainread", "h_nested", "h_convwrite", "h_convfull", "h_fltread", "h_fltwrite", "h_copy")]}
A01 = dict(defs={"LEN": 4}, thorough={"defs": {"LEN": 6, "ST": 4}})
CHECKS["A01"] = {"jobs": [J("array.cpp", e, **A01) for e in ("h_views", "h_viewsStr", "h_viewsSum", "h_viewsRep", "h_viewsRev", "h_viewsMid", "h_sum", "h_repeat", "h_split", "h_compare", "h_render", "h_iter", "h_write")] + [J("array.cpp", "h_find", defs={"LEN": 3}, thorough={"defs": {"LEN": 5}})]}
CHECKS["A02"] = {"jobs": [J("strings.cpp", "h_cow", defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("strings.cpp", "h_cowW", defs={"NS": 2}, thorough={"defs": {"NS": 3}})] + [J("strings.cpp", e, defs={"NS": 3}) for e in ("h_build", "h_utf8", "h_ci", "h_cstr")]}
CHECKS["A03"] = {"jobs": [J("strings.cpp", "h_pool", defs={"NS": 3}, thorough={"defs": {"NS": 4}})]}
MT = dict(mt=True, models=["mtenv.cpp"])
CHECKS["L01"] = {"jobs": [J("locks.cpp", "h_fastlock", preempt=3, thorough={"preempt": 4}, **MT), J("locks.cpp", "h_fastlock", name="h_fastlock_three", defs={"NT": 3}, preempt=2, thorough_only=True, **MT), J("locks.cpp", "h_fastlock", name="h_fastlock_twice", defs={"RND": 2}, preempt=2, **MT), J("locks.cpp", "h_microlock", preempt=4, **MT), J("locks.cpp", "h_microlock", name="h_microlock_three", defs={"NT": 3}, preempt=2, thorough={"preempt": 3}, **MT), J("locks.cpp", "h_microlock", name="h_microlock_twice", defs={"RND": 2}, preempt=3, **MT), J("locks.cpp", "h_fastlockr", preempt=2, thorough={"preempt": 3}, **MT), J("locks.cpp", "h_spinlock", preempt=3, **MT)]}
CHECKS["L02"] = {"jobs": [J("locks.cpp", "h_levelasync", defs={"NS": 6}, thorough={"defs": {"NS": 7}}, **MT), J("locks.cpp", "h_levellock", preempt=2, thorough={"preempt": 3}, **MT), J("locks.cpp", "h_levellock", name="h_levellock_three", defs={"NT": 3}, preempt=1, thorough={"preempt": 2}, **MT), J("locks.cpp", "h_rwlock", preempt=2, thorough={"preempt": 3}, **MT), J("locks.cpp", "h_rwlock", name="h_rwlock_three", defs={"NT": 3}, preempt=1, thorough={"preempt": 2}, **MT)]}
CHECKS["L03"] = {"jobs": [J("syncpt.cpp", "h_order", thorough={"defs": {"NS": 6}}, **MT), J("syncpt.cpp", "h_semaphore", preempt=1, thorough={"preempt": 2}, **MT), J("syncpt.cpp", "h_mutex", preempt=2, thorough={"preempt": 3}, **MT), J("syncpt.cpp", "h_gate", defs={"NT": 1}, preempt=2, thorough={"preempt": 3}, **MT), J("syncpt.cpp", "h_syncpt", defs={"NT": 1}, preempt=1, thorough={"preempt": 2}, **MT), J("syncpt.cpp", "h_notifier", preempt=4, **MT)]}
CHECKS["M01"] = {"jobs": [J("mem.cpp", "h_ref", defs={"NS": 3}, thorough={"defs": {"NS": 4}}, **MT), J("mem.cpp", "h_shared", defs={"NS": 2}, thorough={"defs": {"NS": 3}}, **MT), J("mem.cpp", "h_owned", **MT), J("mem.cpp", "h_refmt", preempt=1, thorough={"preempt": 2}, **MT), J("mem.cpp", "h_weak1", **MT), J("mem.cpp", "h_weak", preempt=3, **MT), J("mem.cpp", "h_weak", name="h_weak_two", defs={"NW": 2}, preempt=1, thorough={"preempt": 3}, **MT), J("mem.cpp", "h_singleton", preempt=1, spin=4, thorough={"preempt": 2}, **MT)]}
CHECKS["M02"] = {"jobs": [J("mem.cpp", "h_cluster", defs={"NS": 4}, thorough={"defs": {"NS": 5}}, **MT), J("mem.cpp", "h_cluster", name="h_cluster_deep", defs={"NS": 3, "PRE": 9}, thorough={"defs": {"NS": 5, "PRE": 9}}, **MT), J("mem.cpp", "h_clusterleak", **MT), J("mem.cpp", "h_pool", thorough={"defs": {"NS": 5}}, **MT), J("mem.cpp", "h_inbuffer", thorough={"defs": {"NS": 6}}, **MT), J("mem.cpp", "h_dyn", **MT), J("mem.cpp", "h_small", defs={"NS": 5}, **MT), J("mem.cpp", "h_slist", preempt=2, thorough={"preempt": 3}, **MT)]}
N = lambda d, t=None, **k: dict(defs=d, thorough={"defs": t or d}, **k)
CHECKS["N01"] = {"jobs": [J("text.cpp", "h_numfmt", reach=["done", "negative"], **N({"BASES": 8, "SPREAD": 16})), J("text.cpp", "h_tostring", **N({"BASES": 8, "SPREAD": 16})), J("text.cpp", "h_numtext", reach=["done", "accepted", "refused"], **N({"NB": 3, "BASES": 4}, {"NB": 4, "BASES": 8}))]}
CHECKS["N02"] = {"jobs": [J("text.cpp", "h_fmt", reach=["done", "filled"], **N({"NEL": 2}, {"NEL": 3})), J("text.cpp", "h_fmtw", reach=["done", "filled"], **N({"NEL": 2}, {"NEL": 3})), J("text.cpp", "h_textout")]}
CHECKS["N03"] = {"jobs": [J("text.cpp", "h_pat", reach=["done", "matched", "field"], **N({"NIN": 5}, {"NIN": 7})), J("text.cpp", "h_pat2", reach=["done", "matched", "field"], **N({"NIN": 5}, {"NIN": 6})), J("text.cpp", "h_lines", reach=["done", "line"], **N({"NIN": 5}, {"NIN": 6}))]}
CHECKS["T01"] = {"jobs": [J("time.cpp", e) for e in ("h_tsarith", "h_tsunix", "h_tswin", "h_tsinterval", "h_tscal", "h_tsiso")] + [J("time.cpp", "h_tsjunk", reach=["refused"])]}
CHECKS["C07"] = {"jobs": [J("sums.cpp", e) for e in ("h_cnum", "h_cnumsigned", "h_cnumany")]}
CHECKS["C08"] = {"jobs": [J("sums.cpp", e) for e in ("h_crc", "h_md5", "h_md5len")]}
CHECKS["K01"] = {"jobs": [J("config.cpp", "h_inivalue", defs={"NB": 3}, thorough={"defs": {"NB": 4}}), J("config.cpp", "h_iniquoted", defs={"NB": 3}, thorough={"defs": {"NB": 4}}), J("config.cpp", "h_inifile", defs={"NF": 3}, thorough={"defs": {"NF": 4}}), J("config.cpp", "h_inisec"), J("config.cpp", "h_initypes"), J("config.cpp", "h_inierr", reach=["ignored", "refused"])]}
Z = lambda **k: dict(thorough={"defs": {"NT": 7, "NT2": 3, "ALPHA": 3}}, **k)
CHECKS["Z01"] = {"jobs": [J("lzw.cpp", "h_lzw", reach=["round trip"], defs={"NT": 5, "NT2": 2, "ALPHA": 2}, **Z()), J("lzw.cpp", "h_lzwp", reach=["round trip"], defs={"NT": 5, "NT2": 2, "ALPHA": 2}, **Z()), J("lzw.cpp", "h_lzwp_kept", reach=["round trip after a rebuilt dictionary"], defs={"NT": 4, "NT2": 2, "ALPHA": 2}, thorough={"defs": {"NT": 5, "NT2": 2, "ALPHA": 3}}), J("lzw.cpp", "h_lzw_any", reach=["decoded", "rejected"], defs={"NT": 4}, thorough={"defs": {"NT": 6}})]}
CHECKS["P01"] = {"jobs": [J("promise.cpp", "h_future", defs={"NS": 4, "NO": 2}, thorough={"defs": {"NS": 5, "NO": 2}}, **MT), J("promise.cpp", "h_observers", **MT), J("promise.cpp", "h_chain", thorough={"defs": {"DEPTH": 3}}, **MT), J("promise.cpp", "h_calls", **MT), J("promise.cpp", "h_void", **MT), J("promise.cpp", "h_futuremt", preempt=2, thorough={"preempt": 3}, **MT), J("promise.cpp", "h_futuremt", name="h_futuremt_two", defs={"NT": 2}, preempt=0, thorough={"preempt": 1}, **MT)]}
NOAPP = ["framework/app.cpp", "linux/main.cpp", "framework/serviceapp.cpp", "linux/serviceapp.cpp"]
def TH(entry, d=None, t=None, tp=None, src="thread.cpp", **kw):
    td = dict(MTREAL=1, **(d or {})); td.update(t or {})
    th = {"defs": td}
    if tp is not None: th["preempt"] = tp
    return J(src, entry, mt=True, models=["mtenv.cpp"], skip_src=NOAPP, defs=dict(MTREAL=1, **(d or {})), thorough=th, **kw)
CHECKS["L04"] = {"jobs": [TH("h_thread", preempt=2, tp=3), TH("h_thread", {"RUNS": 2}, name="h_thread_again", preempt=0, tp=1), TH("h_threadfail", preempt=1, tp=2), TH("h_hooks", preempt=0, tp=1), TH("h_tls", preempt=0, tp=1), TH("h_tlsalloc"), TH("h_startrace", preempt=1, tp=2)]}
CHECKS["Q01"] = {"jobs": [J("msgqueue.cpp", "h_msgq", defs={"NS": 4}, thorough={"defs": {"NS": 5}}, **MT), J("msgqueue.cpp", "h_sched", defs={"NS": 4, "ND": 4}, thorough={"defs": {"NS": 4}}, **MT), J("msgqueue.cpp", "h_msgqmt", preempt=1, thorough={"preempt": 2}, **MT), J("msgqueue.cpp", "h_msgqmt", name="h_msgqmt_three", defs={"NT": 3}, preempt=0, thorough={"preempt": 1}, **MT), J("msgqueue.cpp", "h_msgqmt", name="h_msgqmt_two", defs={"CNT": 2}, preempt=0, thorough={"preempt": 1}, **MT), TH("h_msgthread", src="msgqueue.cpp", preempt=1, tp=2), TH("h_schedthread", src="msgqueue.cpp", preempt=1, tp=2)]}
CHECKS["Q02"] = {"jobs": [J("executor.cpp", "h_qexec", defs={"NA": 1}, preempt=1, thorough={"defs": {"NA": 1}, "preempt": 2}, **MT), J("executor.cpp", "h_qexec", name="h_qexec_one", defs={"NT": 1}, preempt=1, thorough={"defs": {"NT": 1}, "preempt": 2}, **MT), J("executor.cpp", "h_qexec", name="h_qexec_two", preempt=0, thorough={"preempt": 1}, **MT), J("executor.cpp", "h_qexec", name="h_qexec_three", defs={"NT": 3, "NA": 1}, preempt=0, thorough={"defs": {"NT": 3, "NA": 2}}, **MT), J("executor.cpp", "h_qexec", name="h_qexec_more", defs={"NA": 3}, preempt=0, thorough={"defs": {"NA": 4}}, **MT), J("executor.cpp", "h_qexecgone", preempt=1, thorough={"preempt": 2}, **MT), J("executor.cpp", "h_qexecidle", **MT), TH("h_pexec", src="executor.cpp", preempt=1, tp=2), TH("h_pexec", {"NA": 3}, src="executor.cpp", name="h_pexec_more", preempt=0, tp=1), TH("h_pexecfail", src="executor.cpp", preempt=1, tp=2), TH("h_pexectime", src="executor.cpp", preempt=2, tp=3)]}
CHECKS["Q03"] = {"jobs": [TH("h_disp", {"KINDS": 4}, src="dispatcher.cpp", preempt=1, tp=2), TH("h_disp", {"KINDS": 4, "KOFF": 4}, src="dispatcher.cpp", name="h_disp_promises", preempt=1, tp=2), TH("h_disp", {"NA": 3}, src="dispatcher.cpp", name="h_disp_more", preempt=0, tp=1), TH("h_dispmt", src="dispatcher.cpp", preempt=1, tp=2), TH("h_disptime", src="dispatcher.cpp", preempt=1, tp=2), TH("h_disptime", {"NS": 3}, src="dispatcher.cpp", name="h_disptime_three", preempt=0, tp=1)]}
CHECKS["F01"] = {"jobs": [J("files.cpp", "h_desc", reach=["done", "failure"], defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("files.cpp", "h_pipe", reach=["done", "failure"], defs={"NS": 4}, thorough={"defs": {"NS": 5}}), J("files.cpp", "h_pipebig", defs={"FSMX": 300}), J("files.cpp", "h_big"), J("files.cpp", "h_map", reach=["done", "written"])]}
CHECKS["F02"] = {"jobs": [J("files.cpp", "h_commit", reach=["done", "committed"]), J("files.cpp", "h_copy", reach=["done", "copied"]), J("files.cpp", "h_rmtree", reach=["done", "removed"]), J("files.cpp", "h_list", reach=["done", "listed"]), J("files.cpp", "h_mkdir", reach=["done", "created"]), J("files.cpp", "h_handlers", defs={"NS": 4}, thorough={"defs": {"NS": 6}}), J("files.cpp", "h_misc"), J("files.cpp", "h_delegate")]}
CHECKS["R01"] = {"jobs": [J("respool.cpp", "h_raise", preempt=1, thorough={"preempt": 3}, **MT), J("respool.cpp", "h_pool", name="one", defs={"NT": 1}, preempt=2, thorough={"preempt": 5}, **MT), J("respool.cpp", "h_pool", name="two", preempt=1, thorough={"preempt": 2}, **MT)]}
CHECKS["V01"] = {"jobs": [J("holder.cpp", "h_optional", defs={"NS": 4}, thorough={"defs": {"NS": 5}}), J("holder.cpp", "h_optthrow"), J("holder.cpp", "h_variant", defs={"NS": 4}, thorough={"defs": {"NS": 5}})]}
CHECKS["X01"] = {"jobs": [J("cmdpath.cpp", "h_cmdline", thorough={"defs": {"NA": 3}}), J("cmdpath.cpp", "h_cmdline", name="long", defs={"NA": 2, "NC": 5}, thorough={"defs": {"NA": 2, "NC": 6}}), J("cmdpath.cpp", "h_number", thorough={"defs": {"NC": 5}}), J("cmdpath.cpp", "h_path")]}
CHECKS["S01"] = {"jobs": [J("streams.cpp", "h_iobuf", defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("streams.cpp", "h_iobuf", name="h_iobuf_odd", defs={"NS": 2, "BS": 5, "NIN": 7}, thorough={"defs": {"NS": 3, "BS": 5, "NIN": 7}}), J("streams.cpp", "h_lookup", thorough={"defs": {"BS": 6}}), J("streams.cpp", "h_iobuf_fail", defs={"NS": 4}, thorough={"defs": {"NS": 5}}), J("streams.cpp", "h_seqfile", defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("streams.cpp", "h_memfile", defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("streams.cpp", "h_memstr", defs={"NS": 3}, thorough={"defs": {"NS": 4}}), J("streams.cpp", "h_rndwrite")]}
