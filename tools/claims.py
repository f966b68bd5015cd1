SKIP = {}
CLAIM = {
    "C22": ("TLA+ model of the pipeline (spec/Pipeline.tla: packers, indexer, uploader, channels) checked exhaustively by TLC for deadlock, completeness and what "
            "is on disk at every instant; histories of the real binary on machines with 1 to 64 cores, threads held up at random, and failing stages, "
            "checked by TLC against spec/Client.tla", "model_checking",
            "Pipeline.tla covers every schedule and every point of failure of small runs; the real binary is bound to it by the contract of Client.tla (exactly "
            "once, indexed, ends, fails when a stage fails), judged after every command. /proc/cpuinfo is a stand-in, so core counts are what num_cpus sees."),
    "C28": ("TLA+ contract of every command (spec/Client.tla, clauses Cloud) checked by TLC against histories of the real binary on a repository kept by a "
            "stand-in Backblaze server over the loopback network, which fails, cuts off or kills at chosen requests and lists by small pages", "model_checking",
            "Every request of sampled commands is failed in turn (enum_b2), and requests at random (b2). The server (lib/b2.py) is a model of the B2 API by its "
            "documentation: what the real service does differently is out of reach. TLS is not exercised; the authorize URL is redirected by a guarded hook."),
    "C11": ("TLA+ contract for commands at the same time (spec/Client.tla: Conc) checked by TLC against schedules of the real binary", "model_checking",
            "Two or three commands run at once; each stops before every file-system operation others could notice, and a scheduler decides who "
            "goes on: at random (profile conc), or the first stopped after each of its operations in turn (enum_conc)."),
    "C23": ("TLA+ model of the counting semaphore (spec/Semaphore.tla, Limiter.tla) checked exhaustively by TLC; TLC's behaviours and random schedules "
            "replayed on the real backend wrapper, whose traces are checked against spec/LimiterTrace.tla", "model_checking",
            "The real code runs with a stand-in for the atomic-wait crate under a deterministic scheduler. "),
}
HOOKS = {"guard": "cfg vp_hooks", "enable": "RUSTC_WRAPPER=/verif/harness/rustc-wrapper.sh adds --cfg vp_hooks when it compiles backpak and backpak_b2",
         "source_commits": ["6bc7550126ddabc4bfe4f56898e3df7744ebb403", "c51ea717deb0c0155a69d651203d4d2d9b9786d2"]}
