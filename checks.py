"""The checks: which programs, which workloads, which monitors' counts must not be zero."""
from vlib import Job, VALGRIND


def split(exe, mode, n, seed, procs=8, timeout=300, cpus=1, env=None, extra=(), np=0, wrap=()):
    """n cases of one mode spread over processes"""
    jobs = []
    per = max(1, (n + procs - 1) // procs)
    for i in range(0, n, per):
        jobs.append(Job("%s#%d" % (mode, i), list(wrap) + [exe, "--mode=" + mode, "--seed=%d" % seed, "--first=%d" % i, "--n=%d" % min(per, n - i)] + list(extra),
                        env=env, timeout=timeout, cpus=cpus, np=np))
    return jobs


def grid(variant, modes, rule, need=(), only=None):
    """modes: list of (mode, quick n, thorough n[, variant[, cpus[, processes]]]); mode may be 'program:mode'"""
    def jobs(exes, tier, seed):
        out = []
        for m in modes:
            n = m[1] if tier == "quick" else m[2]
            v = (m[3] if len(m) > 3 else None) or variant
            cpus = m[4] if len(m) > 4 else 1
            prog, mode = m[0].split(":") if ":" in m[0] else ("h_grid", m[0])
            np = m[5] if len(m) > 5 else 0
            # MPI: few starts (about a second each)
            procs = 2 if np or v.endswith("-plain") else max(1, 8 // cpus)
            if tier != "quick":
                procs = 12 if np else 16
            out += split(exes[(v, prog)], mode, n, seed, cpus=cpus, procs=procs, np=np, wrap=VALGRIND if v.endswith("-plain") and not np else (),
                         timeout=(300 if np else 150) if tier == "quick" else 700)
        return out
    variants = []
    for m in modes:
        v = ((m[3] if len(m) > 3 else None) or variant, m[0].split(":")[0] if ":" in m[0] else "h_grid")
        if v not in variants:
            variants.append(v)
    return {"programs": variants, "jobs": jobs, "rule": rule, "need": list(need), "only": only}


CHECKS = {
    "C01": grid("seq-asan", [("h_mpi:full", 20, 400, "mpith-asan", 2, 2), ("h_mpi:fullth", 20, 400, "mpith-asan", 2, 2), ("h_mpi:cache", 24, 400, "mpith-asan", 2, 2), ("h_mpi:cacheth", 24, 400, "mpith-asan", 2, 2), ("values", 700, 20000), ("huge", 240, 6000), ("big", 2, 6, None, 4)],
                "distinct (file shape, cell type, topology, parameters) with more than one block", ["values_compared", "multi_domain", "multi_block", "huge_values", "blocks_beyond_32_bit", "values_beyond_4GiB"]),
    "C02": grid("seqs-asan", [("coords", 1600, 60000)],
                "distinct (shape, coordinates, parameters)", ["unambiguous", "range_checks"]),
    "C03": grid("seq-asan", [("types", 800, 20000), ("h_mpi:full", 60, 600, "mpif-asan", 2, 2), ("h_mpi:cache", 40, 400, "mpif-asan", 2, 2)],
                "distinct (cell layout, file type, storage)", ["cells_compared", "mpi_transfers"]),
    "C04": grid("seqs-asan", [("h_mpi:full", 20, 400, "mpith-asan", 2, 2), ("h_mpi:fullth", 20, 400, "mpith-asan", 2, 2), ("h_mpi:cache", 24, 400, "mpith-asan", 2, 2), ("h_mpi:cacheth", 24, 400, "mpith-asan", 2, 2), ("stress", 320, 6000, "seqs-asan", 2)],
                "distinct multi-threaded configurations with more than one block", ["values_compared"]),
    "C05": grid("seqs-asan", [("cache", 500, 12000), ("levelcache", 200, 6000), ("numa", 200, 5000)],
                "distinct configurations with at least one eviction and one hit", ["hits", "misses", "evictions"]),
    "C06": grid("seqs-asan", [("h_mpi:full", 20, 400, "mpith-asan", 2, 2), ("h_mpi:fullth", 20, 400, "mpith-asan", 2, 2), ("h_mpi:cache", 24, 400, "mpith-asan", 2, 2), ("h_mpi:cacheth", 24, 400, "mpith-asan", 2, 2), ("counters", 300, 6000), ("counters_mt", 300, 6000, "seqc-asan")],
                "distinct (shape, levels, parameters)", ["accesses"]),
    "C07": grid("seqs-asan", [("hostile", 1600, 40000)] + [(m, n, 25 * n, "seq-plain") for m, n in
                              [("hostile", 80), ("values", 80), ("cache", 40), ("numa", 40), ("pass", 40), ("levels", 40), ("blocks", 40), ("errors", 40), ("faults", 40), ("types", 40), ("counters", 24), ("params", 40)]],
                "distinct (file, coordinate variables, parameters, topology) with hostile positions", ["hostile_positions", "exactly_determined_indices", "odd_coordinate_variables", "sparse_levels", "empty_variables", "values_compared"]),
    "C08": grid("seqs-asan", [("leaks", 240, 4000)],
                "distinct (life cycle, shape, parameters)", ["heap_blocks_tracked", "cycles"]),
    "C09": grid("seq-tsan", [("h_mpi:full", 24, 600, "mpith-tsan", 4, 2), ("h_mpi:cache", 24, 600, "mpith-tsan", 4, 2), ("stress", 100, 3000), ("indep", 60, 1500), ("levels", 60, 1500), ("pass", 40, 1000), ("counters_mt", 40, 1000),
                             ("numa", 20, 500), ("blocks", 60, 1000), ("errors", 60, 1000), ("h_sync:once", 160, 3000), ("h_sync:barrier", 160, 3000),
                             ("h_sync:numa", 200, 3000),
                             ("h_mpi:fullth", 24, 600, "mpith-tsan", 4, 2), ("h_mpi:cacheth", 24, 600, "mpith-tsan", 4, 2), ("h_mpi:life", 16, 400, "mpith-tsan", 4, 2), ("h_mpi:conc", 16, 400, "mpith-tsan", 4, 2), ("migrate", 40, 1000)],
                "distinct multi-threaded configurations/histories watched by ThreadSanitizer", ["values_compared", "grids_opened", "save_exec_calls"]),
    "C10": grid("seqs-asan", [("h_sync:barrier", 2400, 60000)],
                "distinct (threads, rounds, operation mix, spurious wake-ups, schedule seed) with several threads", ["crossings", "broadcasts", "exclusive_sections", "spurious_wakeups"]),
    "C11": grid("seqs-asan", [("h_sync:once", 2400, 60000)],
                "distinct (threads, objects, schedule seed)", ["contended_calls"]),
    "C12": grid("seqs-asan", [("h_sync:numa", 4000, 100000)],
                "distinct (nodes of the threads, detection, registrations) with several domains", ["registrations", "domain_broadcasts"]),
    "C13": grid("seqs-asan", [("errors", 800, 20000), ("faults", 1200, 30000)],
                "distinct (failure, storage, topology, shape)", ["retries", "opens_failed_on_some_domains_only"]),
    "C14": grid("seqs-asan", [("h_mpi:full", 20, 400, "mpith-asan", 2, 2), ("h_mpi:cache", 24, 400, "mpith-asan", 2, 2), ("h_mpi:cacheth", 24, 400, "mpith-asan", 2, 2), ("levels", 500, 12000), ("levelcache", 200, 6000)],
                "distinct multi-level configurations", ["levels_opened", "order_shuffled"]),
    "C15": grid("seqs-asan", [("params", 700, 16000), ("levelcache", 300, 6000)],
                "distinct (shape, block sizes, time dimension) with more than one block", ["blocks_read", "time_dimension_default"]),
    "C16": grid("seqs-asan", [("h_mpi:full", 24, 400, "mpith-asan", 2, 2), ("blocks", 400, 10000), ("blocks", 400, 10000, "blk-asan")],
                "distinct (shape, blocks, NUMA topology) with several blocks and domains", ["block_reads"]),
    "C21": grid("seqs-asan", [("h_api:api", 400, 8000), ("h_api:api_mt", 200, 4000), ("h_mpi:lang", 100, 1000, "mpi-asan", 2, 3), ("h_mpi:lang", 100, 1000, "mpith-asan", 2, 3)],
                "distinct (interfaces, cell types, shapes, parameters, communicators)", ["constants", "values_compared", "mt_values", "levels", "c_grids", "fortran_grids"]),
    "C22": grid("seqs-asan", [("indep", 200, 4000, "seqs-asan", 2), ("many", 80, 1500), ("migrate", 200, 4000, "seqs-asan", 2),
                             ("h_mpi:conc", 40, 600, "mpith-asan", 4, 3)],
                "distinct histories of concurrent open/access/close", ["values_compared", "grids_opened", "shared_threads", "concurrent_opens"]),
    "C23": grid("seqs-asan", [("numa", 400, 8000), ("h_mpi:full", 64, 800, "mpi-asan", 4, 2), ("h_mpi:fullth", 48, 800, "mpith-asan", 4, 2), ("h_mpi:cache", 32, 600, "mpi-asan", 4, 2)],
                "distinct configurations in which at least one transfer between domains was expected", ["numa_transfers"]),
    "C24": grid("seqs-asan", [("pass", 400, 8000)],
                "distinct (shape, type, topology)", ["single_cell_reads"]),
    "C29": grid("nonuma-asan", [(m, n, 40 * n, v) for v in ["nonuma-asan", "nothr-asan", "dim8-asan", "dbgnuma-asan"]
                                for m, n in [("values", 120), ("coords", 120), ("levels", 60), ("types", 60), ("cache", 60), ("errors", 80), ("hostile", 60), ("params", 60)]] +
                               [("h_mpi:fullth", 24, 600, "mpi2-asan", 2, 3), ("h_mpi:cacheth", 24, 600, "mpi2-asan", 2, 3),
                                ("h_mpi:full", 32, 600, "mpi-blk-asan", 2, 3), ("h_mpi:cache", 24, 600, "mpi-blk-asan", 2, 3),
                                ("h_mpi:full", 32, 600, "mpin-asan", 2, 3), ("h_mpi:cache", 32, 600, "mpin-asan", 2, 3),
                                ("h_mpi:fullth", 24, 600, "mpithn-asan", 2, 3), ("h_mpi:cacheth", 32, 600, "mpithn-asan", 2, 3)],
                "distinct (build options, workload configuration)", ["values_compared", "unambiguous", "cells_compared", "blocks_read", "mpi_transfers"]),
    "C17": grid("mpi-asan", [("h_mpi:full", 32, 400, "mpith-asan", 2, 2), ("h_mpi:full", 32, 400, "mpith-asan", 4, 4), ("h_mpi:full", 48, 600, None, 2, 2), ("h_mpi:full", 48, 600, None, 2, 3), ("h_mpi:full", 32, 400, None, 4, 5),
                             ("h_mpi:fullth", 48, 600, "mpith-asan", 2, 2), ("h_mpi:fullth", 60, 600, "mpith-asan", 2, 3), ("h_mpi:fullth", 32, 400, "mpith-asan", 4, 5)],
                "distinct (processes, shape, blocks, topology, communication) with blocks on several processes", ["values_compared", "mpi_transfers", "services_judged", "cells_covered"]),
    "C18": grid("mpi-asan", [("h_mpi:cache", 60, 500, "mpith-asan", 2, 2), ("h_mpi:cache", 60, 500, "mpith-asan", 2, 3), ("h_mpi:cache", 90, 600, None, 2, 2), ("h_mpi:cache", 120, 800, None, 2, 3), ("h_mpi:cache", 48, 400, None, 4, 4),
                             ("h_mpi:cacheth", 90, 600, "mpith-asan", 2, 2), ("h_mpi:cacheth", 120, 800, "mpith-asan", 2, 3), ("h_mpi:cacheth", 48, 400, "mpith-asan", 4, 4)],
                "distinct (processes, shape, cache sizes, topology, communication) shared by several processes", ["values_compared", "mpi_transfers", "services_judged", "file_loads"]),
    "C19": grid("mpith-asan", [("h_mpint:comm", 180, 2000, None, 2, 2), ("h_mpint:comm", 180, 2000, None, 2, 3), ("h_mpint:comm", 120, 1000, None, 4, 5), ("h_mpint:comm", 120, 1000, "mpith-tsan", 2, 3)],
                "distinct (processes, communicators, receivers, senders, pinning)", ["messages_sent", "messages_received", "pinned_starts", "not_members", "earlier_receivers"]),
    "C20": grid("mpi-asan", [("h_mpi:localrank", 200, 4000, None, 2, 2), ("h_mpi:localrank", 300, 6000, None, 2, 3), ("h_mpi:localrank", 300, 6000, None, 4, 6)],
                "distinct assignments of processes to (faked) nodes", ["local_ranks", "colliding_names"]),
    "C25": grid("mpi-asan", [("h_mpi:life", 120, 1000, None, 2, 2), ("h_mpi:life", 120, 1000, None, 2, 3), ("h_mpi:life", 120, 1000, "mpith-asan", 2, 3), ("h_mpi:conc", 40, 400, "mpith-asan", 4, 2), ("h_mpi:nothread", 180, 1000, "mpith-asan", 2, 3)],
                "distinct (life cycle, communication, shape, processes)", ["cycles", "mpi_resources_created", "failed_opens", "opens_failed_for_some_threads", "memory_refused", "windows_refused", "communicators_refused", "types_refused"]),
    "C26": grid("mpi-asan", [("h_mpi:tiny", 50, 600, "mpith-asan", 4, 3), ("h_mpi:tiny", 50, 600, "mpith-asan", 4, 2), ("h_mpi:tiny", 60, 800, None, 4, 3), ("h_mpi:tiny", 60, 800, None, 4, 2), ("h_mpi:tinyth", 60, 800, "mpith-asan", 4, 3), ("h_mpi:tinyth", 60, 800, "mpith-asan", 4, 2),
                             ("stress", 160, 4000, "seqs-asan", 2)],
                "distinct configurations of threads and processes fighting for one or two cache entries", ["values_compared"]),
    "C27": grid("mpi-asan", [("h_mpi:cache", 120, 800, None, 2, 3), ("h_mpi:full", 120, 800, None, 2, 3), ("h_mpi:life", 90, 600, None, 2, 2), ("h_mpi:conc", 60, 600, None, 4, 3)],
                "distinct multi-threaded configurations over processes", ["mpi_calls_watched", "concurrent_opens"]),
    "C28": grid("mpi-asan", [("h_mpint:mutex", 240, 1000, "mpith-asan", 2, 2), ("h_mpint:mutex", 240, 1000, "mpith-asan", 2, 3), ("h_mpint:mutex", 480, 2000, None, 2, 2), ("h_mpint:mutex", 480, 2000, None, 2, 3), ("h_mpint:mutex", 320, 1000, None, 4, 5)],
                "distinct (processes, threads, locks, rounds)", ["critical_sections", "contended"]),
}
