"""What each check runs: program parts, amount of work, what must have been seen."""
import os
import random
import subprocess

KIN = dict(parts=["cpp"], tus=["main", "kin"], san="asan", tu_san="asanlite", tu_opt="-O0",
           instr="library: AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions; harness: AddressSanitizer; online comparison with a reference model",
           assume=["axes of turning joints have unit length", "sine, cosine and square root of the platform are accurate to a few units in the last place"])


def kin(quick, thorough, **kw):
    return dict(KIN, quick=quick, thorough=thorough, **kw)


PY = dict(parts=["py"],
          instr="the Python package with its extension module compiled from the working tree under AddressSanitizer and UndefinedBehaviorSanitizer (a stand-in of pybind11, /verif/harness/pyshim, takes the place of the missing library); every call compared online with a reference model",
          assume=["axes of turning joints have unit length", "the stand-in of pybind11 converts arguments as pybind11 does"])


def pyp(quick, thorough, **kw):
    return dict(PY, quick=quick, thorough=thorough, **kw)


def make_locales(work):
    """Compiles locales with a decimal comma into the work directory (none are installed)."""
    d = os.path.join(work, "locales")
    os.makedirs(d, exist_ok=True)
    for name, src, cs in (("de_DE.UTF-8", "de_DE", "UTF-8"), ("de_DE", "de_DE", "ISO-8859-1"), ("tr_TR.UTF-8", "tr_TR", "UTF-8"), ("fr_FR.UTF-8", "fr_FR", "UTF-8")):
        subprocess.run(["localedef", "-i", src, "-f", cs, os.path.join(d, name)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.environ["LOCPATH"] = d


def xml_corpus(d, seed, repo):
    """Seeds of the fuzzers: small documents, and pieces of the bundled robots."""
    rnd = random.Random(seed)
    n = 0

    def put(s):
        nonlocal n
        with open(os.path.join(d, "seed%03d" % n), "wb") as f:
            f.write(s if isinstance(s, bytes) else s.encode())
        n += 1

    full = ("<robot name='r'><material name='m'><color rgba='0 0 0 1'/></material><link name='a'><inertial><origin xyz='0 0 1' rpy='1 2 3'/>"
            "<mass value='1'/><inertia ixx='1' ixy='0' ixz='0' iyy='1' iyz='0' izz='1'/></inertial><visual><geometry><box size='1 1 1'/></geometry>"
            "<material name='m'/></visual></link><link name='b'><collision><geometry><mesh filename='f' scale='1 1 1'/></geometry></collision></link>"
            "<joint name='j' type='revolute'><parent link='a'/><child link='b'/><origin xyz='1 0 0'/><axis xyz='0 0 1'/>"
            "<limit lower='-1' upper='1' effort='1' velocity='1'/><dynamics damping='1'/><mimic joint='j'/></joint></robot>")
    put(full)
    put("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- c -->\n" + full.replace("><", ">\n  <"))
    put("<robot name='r'><link name='a'/></robot>")
    put("<a b='c' d=\"e\">text &lt; &#65; <![CDATA[ x ]]> <!-- y --> <b/><?pi x?><!D e></a>")
    put(b"\xef\xbb\xbf<a>\xc3\xa9\xe6\x97\xa5&#x65e5;</a>")
    put(b"<?xml version='1.0' encoding='latin1'?><a \xe9='\xe9'>\xff</a>")
    for name in ("kuka", "fetch", "pr2"):
        f = os.path.join(repo, "data", name + ".urdf")
        if os.path.exists(f):
            t = open(f, "rb").read()
            for _ in range(3):
                i = rnd.randrange(max(1, len(t) - 2000))
                i = max(0, t.find(b"<link", i))
                put(b"<robot name='r'>" + t[i:i + rnd.randrange(200, 2500)])


PROPS = {
    "K01": kin(18000, 120000, min_eval=20000, must_see=["states_observed"]),
    "K02": kin(24000, 160000, min_eval=20000, must_see=["repeats_compared", "jacobians_compared", "aggregates_compared"]),
    "K03": kin(24000, 160000, min_eval=20000, must_see=["jacobians_rotation_type_0", "jacobians_rotation_type_1", "jacobians_rotation_type_2", "zero_columns_checked"]),
    "K04": kin(18000, 120000, min_eval=10000, must_see=["jacobians_rotation_type_0", "jacobians_rotation_type_1", "jacobians_rotation_type_2"]),
    "K05": kin(24000, 160000, min_eval=10000, must_see=["base_motions"]),
    "K06": kin(5000, 100000, min_eval=8000, must_see=["with_base", "without_base"]),
    "K07": kin(18000, 120000, min_eval=10000, must_see=["base_motions"]),
    "K08": kin(2500, 50000, min_eval=20000, must_see=["links_added", "duplicates_rejected"]),
    "K09": kin(7500, 50000, min_eval=10000, must_see=["unknown_names_rejected"]),
    "K10": kin(18000, 120000, min_eval=10000, must_see=["limits_continuous_without_limit", "limits_continuous", "limits_revolute", "limits_prismatic"]),
    "K11": kin(24000, 160000, min_eval=10000, must_see=["angles_compared"]),
    "K12": kin(6000, 200000, tus=["main", "alg"], min_eval=30000),
    "K13": kin(6000, 200000, tus=["main", "alg"], min_eval=30000, must_see=["rotary", "prismatic", "fixed", "unsupported_rejected", "derivatives_compared"]),
    "R01": kin(2500, 60000, parts=["cpp", "vg"], tus=["main", "mem"], tu_opt="-O0", vg_quick=240, vg_thorough=8000, min_eval=10000,
               must_see=["copies", "assignments", "moves", "destructions", "links_added", "exports"],
               instr="AddressSanitizer with leak detection, UndefinedBehaviorSanitizer, libstdc++ assertions; a part of the histories under valgrind memcheck; every instance compared online with its own reference model"),
    "R02": kin(400, 8000, tus=["main", "thr"], san="tsan", tu_san="tsan", tu_opt="-O1", workers=4, min_eval=400, must_see=["context_switches_seen"],
               instr="ThreadSanitizer on library and harness; results compared with the same calls run alone"),
    "R03": kin(18000, 200000, tus=["main", "box"], min_eval=50000),
    "U01": kin(14000, 200000, parts=["cpp", "fuzz"], tus=["main", "urdf"], fuzz_tus=["fz_urdf"], fuzz_quick=40000, fuzz_thorough=3000000, fuzz_corpus=xml_corpus,
               min_eval=50000, must_see=["accepted", "rejected", "fuzz_accepted", "fuzz_executions"],
               instr="gcc AddressSanitizer with leak detection, UndefinedBehaviorSanitizer, libstdc++ assertions, CPU-time watchdog; clang AddressSanitizer, UndefinedBehaviorSanitizer and libFuzzer coverage"),
    "U02": kin(12000, 120000, tus=["main", "urdf"], min_eval=20000, must_see=["visuals_compared", "collisions_compared"]),
    "U03": kin(7500, 80000, tus=["main", "urdf"], min_eval=8000, must_see=["defect_" + d for d in ("empty cut_off end_tag start_tag repeated_attribute root_element version no_link repeated_link repeated_joint repeated_material joint_incomplete malformed_number limits_missing undefined_link two_roots loop two_parents separate_loop planar_or_floating").split()]),
    "U04": kin(6000, 100000, tus=["main", "urdf"], min_eval=100000, must_see=["poses_compared"]),
    "U05": kin(1200, 30000, tus=["main", "urdf"], prepare=make_locales, min_eval=100000, must_see=["runs_with_decimal_comma", "named_global_locales"]),
    "U06": kin(2400, 40000, tus=["main", "urdf"], min_eval=100000, must_see=["files", "spellings"]),
    "U07": kin(2500, 60000, tus=["main", "urdf"], min_eval=5000, must_see=["flaw_inertial", "flaw_visual", "flaw_collision", "flaw_colour", "shapes_kept", "descriptions_compared", "coms_compared"]),
    "U08": kin(3000, 60000, tus=["main", "urdf"], min_eval=20000, must_see=["models_compared", "no_trees", "lookups", "models_cleared", "good_texts", "bad_texts", "defaults_checked", "visuals_compared"]),
    "W01": pyp(2000, 60000, min_eval=5000, must_see=["fk_%s_%s" % (b, r) for b in ("FIXED", "PLANER", "FLOATING") for r in ("IGNORE", "RPY", "XYZW")] + ["jacobian_blocks", "cache_reuse", "bundled_robots", "reference_self_tests", "form list of lists", "form one array"]),
    "W02": pyp(2000, 60000, min_eval=4000, must_see=["com_FIXED", "com_PLANER", "com_FLOATING", "com_with_forces", "com_batches", "com_jacobians", "bundled_robots"]),
    "W03": pyp(2000, 60000, min_eval=4000, must_see=["inertia_base_moved", "bundled_robots"]),
    "W04": pyp(2000, 60000, min_eval=4000, must_see=["sqdist_FIXED", "sqdist_PLANER", "sqdist_FLOATING", "pairs_of_one_link", "gradients", "sqdist_cache_reuse", "bundled_robots"]),
    "W05": pyp(6000, 60000, min_eval=10000, must_see=["states_read_FIXED", "states_read_PLANER", "states_read_FLOATING", "read_back_FLOATING", "limits_continuous", "limits_revolute", "duplicates", "links_added"]),
    "W06": pyp(1600, 50000, min_eval=10000, must_see=["copies_by_" + w for w in "pickle copy deepcopy twice file container".split()] + ["failed_calls", "arguments_changed_later", "models_dropped"]),
    "W07": pyp(1600, 50000, min_eval=10000, must_see=["rejected " + w for w in ("solve_fk of wrong length", "solve_com_fk with forces that do not match", "compute_inter_link_sqdists of wrong length", "set_q of wrong length", "solve_fk with an unknown joint id")]),
    "W08": pyp(600, 8000, min_eval=3000, must_see=["sessions_killed", "races", "switches_between_sessions", "paths_checked", "failed_steps", "deletions", "sessions_without_network"]),
    "X01": kin(72000, 800000, tus=["main", "xml"], min_eval=50000, must_see=["encoding_mode_0", "encoding_mode_1", "encoding_mode_2", "encoding_mode_3", "condensed", "white_space_kept", "from_file"]),
    "X02": kin(16000, 500000, tus=["main", "xml"], min_eval=100000, must_see=["printed_" + w for w in "printer printer_stream ostream string file".split()]),
    "X03": kin(9000, 100000, tus=["main", "xml"], min_eval=100000, must_see=["op_" + w for w in ("LinkEndChild", "InsertBeforeChild", "InsertAfterChild", "ReplaceChild", "RemoveChild", "Clear", "attribute", "copy of document", "assignment of element", "destruction of document")] + ["nodes_freed", "attribute_reads"]),
    "X05": kin(8000, 250000, parts=["cpp", "fuzz"], tus=["main", "xml"], fuzz_tus=["fz_xmls"], fuzz_quick=25000, fuzz_thorough=3000000, fuzz_corpus=xml_corpus, min_eval=50000,
               instr="gcc AddressSanitizer with leak detection, UndefinedBehaviorSanitizer, assertions on, CPU-time watchdog; clang AddressSanitizer, UndefinedBehaviorSanitizer and libFuzzer coverage; stream positions and states watched by an own stream buffer",
               must_see=["fuzz_accepted", "nodes_from_anything", "from_file", "from_string", "from_trickle", "documents", "single_nodes", "with_null_bytes", "mutants_accepted", "mutants_rejected", "null_byte_positions"]),
    "X06": kin(30000, 500000, tus=["main", "xml"], min_eval=100000, must_see=["attributes_placed", "elements_placed", "texts_placed", "cdata_placed", "comments_placed", "declarations_placed", "from_file", "from_text", "fault_end_tag_mismatched", "fault_attribute_malformed"]),
    "X07": kin(12000, 300000, tus=["main", "xml"], min_eval=50000,
               instr="streams with injected write errors, read errors, short reads and false sizes; file size limits; open files counted around every call; AddressSanitizer, UndefinedBehaviorSanitizer, assertions on",
               must_see=["writes_failed", "streams_saved", "saves_to_full_device", "saves_to_bad_places", "files_saved", "files_cut_off", "reads_failed", "not_seekable", "read_in_pieces", "read_in_full", "loads_from_bad_places", "files_loaded", "loaded", "loaded_malformed", "bad_descriptions", "good_descriptions"]),
    "X04": kin(6000, 200000, parts=["cpp", "fuzz"], tus=["main", "xml"], fuzz_tus=["fz_xml"], fuzz_quick=60000, fuzz_thorough=4000000, fuzz_corpus=xml_corpus, min_eval=50000,
               must_see=["corruption_" + w for w in "cut_off end_tag_removed end_tag_mismatched end_tag_extra end_tag_without_bracket end_tag_not_closed start_tag_not_closed attribute_repeated attribute_value_not_closed".split()] + ["mutants_accepted", "mutants_rejected", "fuzz_accepted"],
               instr="gcc AddressSanitizer with leak detection, UndefinedBehaviorSanitizer, assertions on, CPU-time watchdog; clang AddressSanitizer, UndefinedBehaviorSanitizer and libFuzzer coverage"),
}
