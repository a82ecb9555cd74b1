"""Writes MANIFEST.json."""
import json, os
T = {
 "C01": "differential monitor: generated meshes drawn before and after the real conversion, ASan+UBSan and optimised builds",
 "C02": "differential monitor of the cyclic vertex order of every drawn triangle on generated meshes, ASan+UBSan",
 "C03": "monitor of vertex uniqueness and first-use order over generated conversions, ASan+UBSan",
 "C04": "structural monitor over every index buffer of generated conversions, ASan+UBSan",
 "C05": "monitor comparing every output attribute with an independent codec model, ASan+UBSan",
 "C06": "monitor comparing reported bounds with the referenced values, generated meshes, ASan+UBSan",
 "C07": "monitor of the numeric inverse of the Bounds transform on generated data, ASan+UBSan",
 "C08": "decoder runs over enumerated and random codes against an exact reference, ASan+UBSan, hardware and software half paths",
 "C09": "encoder runs over boundary, tie and random doubles against an exact reference, ASan+UBSan (float-cast-overflow)",
 "C10": "round-trip monitor over enumerated and random codes, ASan+UBSan",
 "C11": "element-exact heap buffers and canaries around every access, ASan",
 "C12": "model-based call histories checked after every call, ASan+UBSan",
 "C13": "enumerated and random name tables against a model, ASan+UBSan",
 "C14": "model-based call histories with an error-callback monitor, ASan+UBSan",
 "C15": "hostile index data in exact-size buffers, acceptance oracle, ASan+UBSan",
 "C16": "AddressSanitizer, LeakSanitizer, UBSan, libstdc++ debug mode and assertions over all library workloads",
 "C17": "repeated conversions under perturbed memory, digests compared between processes, valgrind memcheck definedness",
 "C18": "ThreadSanitizer (gcc and clang) stress with per-thread result oracle",
 "C19": "enumerated and random strings against a bit-level reference, ASan+UBSan",
 "C20": "generated, singly broken and syntactically broken configurations against a model, ASan+UBSan",
 "C21": "hostile-input fuzzing of the real main in child processes under ASan+UBSan",
 "C22": "end-to-end comparison of the real tool's output with the library's result",
 "C23": "system call fault injection (strace), resource limits and allocation faults at every point of a run, exit-status oracle",
 "C24": "file system snapshots, decoy files and system call traces around the real tool; path helper monitor",
 "C26": "valid, singly broken and harmlessly changed runs of the real tool (ASan+UBSan and optimised), acceptance oracle",
 "C27": "executed blocks, bytes moved and heap peak counted by compiler instrumentation at two input sizes and compared",
 "C28": "byte-wise and componentwise models of the index and value helpers, guard pages, ASan+UBSan and optimised builds",
 "C29": "allocation faults and throwing error functions at every point of every call, compared with undisturbed objects, ASan+UBSan",
 "C30": "child processes that use the library before and after main() and in compiled locales, compared with main() in the C locale, ASan+UBSan and optimised builds",
 "C25": "generated result documents parsed back by an independent strict JSON parser, ASan+UBSan",
}
TRUST = "Trusts gcc's sanitizers and the reference model in harness/; evidence holds for the executions observed (seeded, reproducible), not beyond."
NOTE = {
 "C02": "One listed finding (strip continuation after an odd number of triangles); any other difference is a violation. ",
 "C06": "One listed finding (components with nothing but infinities). ",
 "C08": "8- and 16-bit components are enumerated completely, wider ones sampled densely at boundaries. ",
 "C10": "8- and 16-bit components are enumerated completely, wider ones sampled. ",
 "C13": "The name and rule tables are enumerated completely, other strings sampled. ",
 "C18": "ThreadSanitizer only sees the accesses of schedules that occurred. ",
 "C21": "Paths naming endless or blocking sources are excluded. ",
 "C23": "Every read, write, open, mkdir, close, ... of each scenario is failed in turn; short writes and full devices included. ",
}
checks = []
for i in sorted(T):
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                       evidence_file="evidence/%s.json" % i, technique="runtime monitoring: " + T[i],
                       level="fault_enumeration" if i == "C23" else "exploration", level_note=NOTE.get(i, "") + TRUST))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=[],
         notes="No hooks in /repo: everything is observed through the public interface, the tool's own functions and the system call boundary. "
               "known_findings.json lists the findings and repaired defects.")
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
