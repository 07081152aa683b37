"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SES = "TLA+ session specification: TLC-generated sessions replayed on the library, recordings validated by TLC"
RNG = "TLA+ register-machine specification of the polynomial rings: TLC-generated programs executed by the library, every recorded step recomputed by TLC"
LEVEL = {}
CH = {
 "C01": (SES, "model_checking", "Every call of every recorded session is a step of the specification. Circuits, assignments and layouts are drawn by TLC with VERIF_SEED; ranks 2-64, six fields. Trusts the TLA+ semantics of constraints and the field arithmetic of the driver's inputs."),
 "C02": (SES, "model_checking", "As C01; violating assignments include single-slot and cancelling ones. Soundness is probabilistic (error about rank/p), so a false acceptance is a violation."),
 "C03": (SES, "model_checking", "As C01; maps are the library's NTT and automorphisms and random integer matrices."),
 "C04": (SES, "model_checking", "As C01; declared sums and circuits with sums moved by opposite amounts."),
 "C05": (SES, "model_checking", "As C01; one session per bound, every small bound, powers of two and their neighbours up to the field, half the field; vectors at and around the bound as symbolic numbers."),
 "C06": (SES, "model_checking", "As C05 for squared two-norms."),
 "C07": (SES, "model_checking", "As C01 at ranks 2048 and up (bound zero: small ranks); vectors at the bound and beyond 4*rank*bound. What lies between is not judged."),
 "C08": (SES, "model_checking", "As C01; the same proofs against other public vectors, CRS strings and circuits."),
 "C09": ("TLA+ specification of a proof as components under alteration: TLC enumerates the alterations of honest proofs, the real verifier judges each, TLC validates the verdicts", "model_checking", "Every component of the proofs of drawn circuits is altered, exchanged, dropped, duplicated and resized one at a time, and in drawn sequences. Values congruent modulo the ring modulus and the bounded noise part are not judged."),
 "C10": ("TLA+ specification of message and challenge rounds: TLC enumerates alterations of messages and programmed challenges, the challenges the real verifier and prover derive are recorded and validated by TLC", "model_checking", "The batch and folding challenges of the opening are recovered from the verifier's verdict-free algebra on crafted openings. Bounded to the circuits drawn; the same code serves every circuit."),
 "C11": (SES, "model_checking", "As C01; assignments with wrong lengths, counts or circuit types, then well-formed ones again."),
 "C12": (SES, "model_checking", "As C01; each call of a random history must give the result the history-free specification gives, and leave its arguments byte for byte unchanged."),
 "C13": ("TLA+ specification of what a proof may reveal: TLC-built circuits proved with dual-number field elements under fixed challenges; the rank of the measured derivatives is computed by TLC and compared with the freedom the verification equations leave; repeated proofs compared part by part", "model_checking", "Rank by random directions over a 15-bit field implementing the library's field interface, ranks 2-16; three challenge draws, any of which may reach full rank. Approximate norms are left out of the rank measurement."),
 "C14": ("TLA+ history specification of commitments and openings: TLC-generated histories executed by the library, every recorded call a step validated by TLC", "model_checking", "Capacities up to a few thousand, all rank pairs the layout gives, batches 1-7, six library fields and a toy field. Values computed by TLC from the coefficients."),
 "C15": ("TLA+ specification of openings under alteration, of openings put together from other openings and of histories of openings: TLC-enumerated alterations and forged chains judged by the real verifier, verdicts validated by TLC", "model_checking", "Single alterations of every part of statement and opening, openings whose parts answer different vectors, points or commitments, drawn sequences, and wrong-statement verifications in histories."),
 "C16": ("TLA+ specification of an opening as a chain of answers with norm bounds: TLC enumerates openings whose equations hold with norms around every published bound, the real verifier's verdicts are validated by TLC against the norms measured on the opening", "model_checking", "Every norm-checked part of an opening enlarged by exact multiples placed in one polynomial or spread, over library parameter sets; equations kept true by construction."),
 "C17": ("TLA+ specification of what an opening may reveal: TLC-drawn commitments measured draw by draw over a field of 257 elements, ranks of the differences computed by TLC; repeated commitments compared part by part; noise spread against the declared one", "model_checking", "Rank measured on matrices of up to a few rows of 32 slots; noise per polynomial with a factor-two tolerance as the property states."),
 "C18": ("TLA+ specification of concurrent calls on scratch memory, model-checked; TLC-generated schedules enforced on the real code at field-operation gates, and uncontrolled concurrent runs under the race detector; every call's recording validated by TLC against the sequential specification", "model_checking", "Schedules interleave two to four workers at the granularity of a field operation (toy and 240-bit fields); the uncontrolled part sees the interleavings the machine gives, with the race detector's happens-before analysis."),
 "C19": (RNG, "model_checking", "Every operation of every recorded program is a step of the specification, computed by TLC modulo p (toy fields implementing the library's field interface) or over the integers (the library's fields, small values). Ranks up to 512; larger ranks use the same code."),
 "C20": (RNG, "model_checking", "As C19 for automorphisms in both representations; the transposed linear checkers are compared with the defining inner-product identity on drawn vectors."),
 "C21": (RNG, "model_checking", "As C19 for division by X^m - 1, evaluation at points and rescaling with drawn moduli, including ties."),
 "C22": (RNG, "model_checking", "As C19 with destinations that are operands, compared with the same operation on a fresh destination; all registers are compared after each operation."),
 "C23": ("TLA+ specification of samplers as streams with memory of everything delivered: TLC-generated families of seeds and call histories executed by the library, every delivery validated by TLC", "model_checking", "Unrelatedness is judged as no common window of eight bytes, reproducibility and ranges exactly, bias at seven standard deviations of a few thousand samples; biases below that are not seen."),
 "C24": ("TLA+ specification of deceits: where the verification equations have room for the discrepancy of a false statement, and which digits, projections and mask sums belie it; TLC puts deceits together for drawn circuits and checks their classification over a small field, a prover written from the protocol and the library's prover over a lying field carry them out, and TLC validates every verdict", "model_checking", "The own prover handles arithmetic, linear and sum constraints; norm constraints are attacked through the library's own prover. If the proof format changes, the own prover makes no acceptable proofs and only the lies remain."),
 "C25": ("TLA+ specification of what parameters must satisfy (limb arithmetic, fixed-point logarithms): TLC-generated configurations derived by the library, every derivation validated by TLC, the smaller ones with a full-length commitment, opening and verification", "model_checking", "Capacities to 10^8, batches to 2^20, six library fields and two toy fields. The hardness estimate is the one the library documents (root Hermite factor 1.005); logarithms are the driver's, to a thousandth."),
 "C26": ("TLA+ specification of the mass of discrete and rounded Gaussians in 72-bit fixed point: TLC-generated samplers, centres and deviations, millions of samples of each counted by the driver, and TLC compares the counts to the specified mass within what chance allows", "exploration", "Sampling resolution: deviations of the distribution function above 0.2 % and of single values above seven standard errors are seen, smaller ones are not. The entropy source is replaced by a seeded one so that runs repeat."),
 "C27": ("TLA+ specification of field registers over unbounded naturals (limb arithmetic): TLC-generated programs of every operation of the field interface, with aliasing and numbers at word and modulus boundaries, run on six fields in the assembly and the portable build, every result validated by TLC in the integers", "model_checking", "amd64 assembly only. Quotients come from the driver and are checked, not trusted. Methods outside the bignum.Uint interface (text, JSON, square roots, vectors) are not covered."),
}
NA = {}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "checks": [{"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "VERIF_TIER=thorough ./check %s" % p, "technique": CH[p][0],
                     "level": CH[p][1], "level_note": CH[p][2]} for p in props if p in CH],
         "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in CH],
         "notes": "No hooks in /repo: the driver is compiled into the repository's module through a build overlay, and the Fiat-Shamir transcript is observed through a replaced copy of the gnark-crypto dependency (shim/)."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
