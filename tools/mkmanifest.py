#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
T = {
 "C01": ("TLA+ lockstep model of LZW coder/decoder (TLC, exhaustive at small constants); its behaviours replayed; API traces validated", ""),
 "C02": ("TLA+ lockstep model of LZSS + adaptive Huffman (TLC); its behaviours replayed; API traces validated", ""),
 "C03": ("TLA+ lockstep model of LZHUF (TLC); its behaviours replayed into the port; API traces validated", ""),
 "C04": ("one TLA+ LZHUF specification for both implementations; API traces of both validated against it", ""),
 "C05": ("byte-exact TLA+ LZW encoder; generated behaviours replayed, recorded output bytes validated by TLC", ""),
 "C06": ("byte-exact TLA+ LZHUF encoder; generated behaviours replayed, recorded output bytes validated by TLC", ""),
 "C07": ("TLA+ LZW decoder over all code sequences (TLC); replayed; recorded expansions validated by TLC", ""),
 "C08": ("TLA+ LZHUF decoder over token sequences (TLC); replayed; recorded expansions validated by TLC", ""),
 "C09": ("TLA+ API specification (totality and output bounds); traces of expansions of damaged data validated", ""),
 "C10": ("TLA+ API specification (truncation laws) and decoders; traces of every cut validated", ""),
 "C11": ("TLA+ API specification of TD0 (header, CRC, body codec); traces validated, bodies byte-exact", ""),
 "C12": ("TLA+ API specification of TD0 refusals; traces over systematically damaged headers validated", ""),
 "C13": ("TLA+ API specification of size limits; traces around every limit (virtual files for the large ones) validated", ""),
 "C14": ("TLA+ API specification of returned sizes; behaviours from the model replayed, traces validated", ""),
 "C15": ("TLA+ API specification of offsets and frame; behaviours from the model replayed, traces validated", ""),
 "C16": ("TLA+ API specification with fault action; every I/O operation failed in turn, traces validated", ""),
 "C17": ("TLA+ API specification of functional behaviour; traces under varied transfer splitting, history and threads validated", ""),
 "C18": ("TLA+ state machine of the command line over a file system (TLC); its histories run with the real binary, traces validated", ""),
}
NOTE = ("The specification is explored exhaustively only at the small constants stated in DESIGN.md; beyond them, "
        "executions of the real code are sampled and each is judged by TLC against the specification. "
        "Trusted: the specification as a statement of intent, TLC, rustc and the recording driver.")
checks = [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking", "level_note": (n + " " + NOTE).strip()}
          for p, (t, n) in sorted(T.items())]
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: everything is observed through the public API and the binary. Specifications in spec/ (TLA+), driver in harness/, orchestration in tools/."},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
