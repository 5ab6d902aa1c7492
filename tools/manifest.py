"""Writes MANIFEST.json. Run from /verif after changing the set of checks."""
import json
CLAIMS = {
 "C01": ("runtime monitor: every offset of generated texts against a direct count", "reference count of newlines and UTF-16 units; small texts enumerated, others random"),
 "C02": ("runtime monitor: spans of generated texts against a direct scan", "all spans of small texts, sampled spans of larger ones"),
 "C03": ("runtime monitor: rendered reports compared with a reference rendering", "random errors with notes and traces"),
 "C04": ("runtime monitor: every code and note with random values, and the report of every rejection, against the program text", "codes and notes enumerated; rejections random"),
 "C05": ("runtime monitor: errors built by random histories of attachments and copies compared with a record of each history; spans compared with their ends", "random histories"),
 "S01": ("runtime monitor: differential against a reference lexer, observed through the parser", "all glued token pairs, then random texts"),
 "P01": ("runtime monitor: crash, hang and internal-error watch over hostile texts in worker processes", "nesting beyond the native stack is a known finding"),
 "P02": ("runtime monitor: tree of the real parser compared with the generating tree", "all operator combinations up to three, then random programs"),
 "P03": ("runtime monitor: acceptance and error place compared with a reference grammar", "token soups and mutated programs"),
 "P04": ("runtime monitor: ranges of every node of the real parser's tree compared with those a reference grammar records", "all operator combinations up to three, then random programs in random layouts"),
 "P05": ("runtime monitor: the message of every rejection taken apart; every token it lists as expected is tried at its place with a reference grammar", "token soups, truncated and mutated programs"),
 "K14": ("runtime monitor: place and name of every rejection compared with where a reference rule checker finds the rule broken", "every rule in every context, in random layouts"),
 "K01": ("runtime monitor: acceptance and code compared with a reference rule checker", "every rule in every context, then random programs with and without one violation"),
 "K02": ("runtime monitor: emitted code decoded and checked instruction by instruction", "random and directed programs"),
 "K03": ("runtime monitor: operand depth of every path checked by abstract interpretation of emitted code, and on a monitored machine", "random and directed programs"),
 "K04": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter", "directed cross products, then random programs"),
 "K05": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter", "directed cross products, then random programs"),
 "K06": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter", "directed cross products, then random programs"),
 "K07": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter, with capture and close monitors", "directed cross products, then random programs"),
 "K08": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter", "directed cross products, then random programs"),
 "K09": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter", "directed cross products, then random programs"),
 "K10": ("runtime monitor: trace and exports of compiled module bundles on a monitored machine against a reference interpreter", "directed cross products, then random bundles"),
 "K11": ("runtime monitor: trace of compiled code on a monitored machine against a reference interpreter", "directed cross products, then random programs"),
 "K12": ("runtime monitor: programs around every limit of the encoding, run against a reference interpreter or rejected with the right code", "48 kinds of program around each limit"),
 "K13": ("runtime monitor: outcomes of repeated, interleaved, re-laid-out and cross-process compilations compared", "random programs"),
 "B01": ("runtime monitor: encodings enumerated, cursor and disassembly compared with references", "all instructions; random buffers and programs"),
 "M01": ("address and memory sanitizers, Miri, live-allocation monitor", "random and directed texts; Miri on small ones"),
 "M02": ("thread sanitizer; outcomes of compilations running beside others compared with the same alone", "random groups of texts in two to eight threads, fresh processes included"),
 "L01": ("runtime monitor: trace of scripts on the compiled shipped prelude against directly computed sequences", "random scripts"),
}
NOT = {
 "R01": "dice-runtime does not compile at this commit (nor do dice and dice-cli, which depend on it), so there is no execution to monitor.",
 "R02": "The embedding API and native classes live in dice-runtime and dice, which do not compile at this commit, so there is no execution to monitor.",
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = []
for p in props:
    if p in CLAIMS:
        t, n = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": t, "level": "exploration", "level_note": n})
na = [{"property": p, "reason": NOT.get(p, "no check yet")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
