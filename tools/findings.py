"""writes known_findings.json from the list below (repairs made in /repo, and findings recorded but not repaired)"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C04", "c85fb15", "an interrupt or timeout noticed by one pass was forgotten: the trial loop, restarts and the chain length phase went on"),
 ("C03", "c85fb15", "two and more passes were made after the time limit"),
 ("C02", "c85fb15", "a stop during the first initialization pass with return_overlap returned empty chains, fixed chains included"),
 ("C05", "c85fb15", "a stop during the first initialization pass threw a valid initial embedding away"),
 ("C03", "faece1e", "the timeout was measured on the wall clock"),
 ("C03", "1460267", "a huge or infinite timeout overflowed into the past and stopped the search at once"),
 ("C07", "c40724b", "exceptions of search tasks were swallowed and a thread that could not be created left other tasks running on dead data"),
 ("C08", "3bf5472", "quickpass(local_search=True) on a variable without a fully linked chain crashed"),
 ("C08", "e2df2cd", "quickpass(varorder=...) with fixed chains embedded the wrong variables and replaced a fixed chain"),
 ("C02", "dcf3b72", "with restrict_chains the search could follow a stale cyclic path and never return, whatever its timeout"),
 ("C08", "bdac0c3", "quickpass(overlap_bound=0) with fixed chains returned overlapping chains"),
 ("C08", "a8989d0", "quickpass(clear_first=False) after a failed allocation followed missing links and crashed"),
 ("C10", "bd63ae7", "the process was terminated by coordinate-labelled zephyr graphs with a tile size other than 4"),
 ("C10", "3535451", "cache files were replaced after the locks were released: lost updates, unreadable files and failures of concurrent users"),
 ("C11", "20666dd", "a process killed halfway left a cache that later evictions failed on, or files that were never evicted"),
 ("C13", "20666dd", "files that were not in the LRU list were never evicted"),
 ("C16", "9f45097", "cache files replaced the old ones before their contents were on disk: unreadable after a power failure"),
 ("C12", "094d8ed", "a cache file that could not be examined counted as missing and was overwritten, losing the other entries"),
 ("C10", "173bef9", "two first users at once: one failed because the other had just created the cache directory"),
 ("C15", "af037e8", "inserting and merging overwrote what other users had stored, and forgot what they had found"),
 ("C14", "78c4755", "an exported clique cache could not be imported again"),
 ("C15", "a077923", "mine_clique_embeddings raised KeyError for chimera graphs without heuristic_bound"),
 ("C10", "2de704f", "pegasus graphs with missing internal couplers: all seeds shared one cache entry"),
 ("C10", "d02e38f", "a busgraph_cache object's answers depended on the computations made with it before (missing internal couplers)"),
 ("C19", "657e512", "find_clique_embedding(use_cache=False) of a clique that fits one unit cell appended chains until memory ran out"),
 ("C19", "3e0767a", "running out of memory in a clique computation ended the process"),
 ("C07", "3e0767a", "running out of memory outside the search itself (setup, copies of the answer) ended the process"),
 ("C08", "3e0767a", "running out of memory in a miner's constructor or setters ended the process"),
 ("C04", "90c32e3", "an interrupt that arrived in a log handler, in sys.stdout or in the edges attribute of a graph was swallowed"),
 ("C18", "469cd7c", "find_sublattice_embeddings dropped timeout, one_to_iterable, use_filter and shuffle_all_graphs, returned an embedding for max_num_emb=0, and changed the caller's T_kwargs"),
 ("C02", "bf4dddd", "initial chains naming fixed variables or qubits of fixed chains, and fixed chains sharing qubits, wrote and read outside the search's arrays"),
 ("C08", "7988af1", "a rejected first quickpass(varorder=...) made the next quickpass(clear_first=False) start from the last search instead of the initial chains"),
 ("C08", "453610c", "a quick pass with VARORDER_KEEP before any other strategy placed variable 0 again and again instead of raising, and returned overlapping chains"),
 ("C03", "3b51039", "passes that could not place a source node did not look at the clock: any number of them ran after the time limit"),
 ("C04", "3b51039", "passes that could not place a source node did not look for interrupts: any number of them ran after one"),
 ("C14", "7bf3fa5", "threads sharing a busgraph_cache: cliques one of them stored in memory only were lost while another wrote to disk"),
]
OPEN = []
fs = [{"property": p, "fixed": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]
fs += [{"property": p, "signature": s, "what": w} for p, s, w in OPEN]
json.dump({"findings": fs}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
open(os.path.join(ROOT, "known_findings.json"), "a").write("\n")
