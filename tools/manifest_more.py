E2 = "bounded-exhaustive enumeration of inputs, histories and faults executed on the real code in isolated processes, every outcome compared with an independent reference model of the gocryptfs format"
E2N = "Every case of the enumerated space (bounds in the evidence) is executed on the real code and compared with the reference model; nothing is sampled. Beyond the bounds nothing is claimed."
BOTH = E1 + "; plus " + E2
for _p in ["C01", "C02", "C04", "C05", "C12", "C13", "C14"]:
    checks[_p] = (E2, "model_checking", E2N)
for _p in ["C11", "C16"]:
    checks[_p] = (E1, "model_checking", E1N)
for _p in ["C03", "C06", "C24"]:
    checks[_p] = (BOTH, "model_checking", E1N + " " + E2N)
checks["C06"] = ("explicit-state exploration of the real cache to a fixpoint against an LRU model, plus " + E1, "model_checking", E1N + " Sequentially the reachable state space is explored to a fixpoint.")
checks["C18"] = ("bounded-exhaustive enumeration of SFTP request packets and request sequences on the real handlers behind the real SFTP server loop, and through the running program, with every access to the remote recorded and every reply compared with the reference model", "model_checking", E2N)
checks["C19"] = ("bounded-exhaustive enumeration of SFTP sessions (directory sizes, read ranges, all interleavings of scripts, request sizes, cuts of the request stream, remote faults) on the real handlers and through the running program, every reply packet compared with the reference model", "model_checking", E2N)
checks["C23"] = ("bounded-exhaustive enumeration of key files and answer sequences on the real key loader (a real terminal pair for the prompt), compared with a model of the prompt protocol", "model_checking", E2N)
checks["C17"] = ("exhaustive enumeration of fault positions over all short call histories, and of all orders of starting and answering concurrent calls, on the real connection pool against a real SSH/SFTP remote whose every packet is controlled", "model_checking", "Every history, fault position and answer order within the bounds (in the evidence) is executed on the real code over loopback TCP; goroutine interleavings between two packets are not controlled here.")
checks["C15"] = ("exhaustive enumeration of crash states: the file operations of real config writes are recorded, every state a crash or a failing operation can leave is built and loaded with the real loader; recorded traces are validated against the real outcome", "model_checking", "All crash points and all combinations of lost, torn and zeroed unsynced writes of the recorded histories; assumes directory operations persist in order.")
PX = "on the real program, started with generated configurations against a controlled SSH/SFTP remote and driven by raw clients over loopback"
checks["C20"] = ("exhaustive enumeration of credentials, authentication methods and attempt sequences " + PX + ", compared with the one-pair model of who gets in", "model_checking", E2N)
checks["C21"] = ("exhaustive enumeration of incomplete configurations, host-key situations, passphrases and reconnection histories " + PX + "; the remote records what the program does there", "model_checking", E2N)
checks["C22"] = ("exhaustive enumeration of client misbehaviours, their pairs and cut points " + PX + ", each followed by well-behaved clients whose every answer is compared with the reference model", "model_checking", E2N)
checks["C17"] = ("stateless exploration of all goroutine schedules and fault positions of the real pool over models of the SSH and SFTP libraries (the models compared with the real libraries behaviour by behaviour), plus exhaustive enumeration of fault positions over all short call histories and of all orders of answers on the real pool and libraries against a controlled remote", "model_checking", "Every schedule, history, fault position and answer order within the bounds (in the evidence) is executed on the real pool.")
checks["C25"] = ("bounded-exhaustive enumeration of requests and failing accesses with every path and byte the remote is sent recorded and matched against the encrypted tree, plus enumeration of sessions " + PX + " with every write of the process recorded and searched for each secret", "model_checking", E2N)
checks["C26"] = ("exhaustive enumeration of faults of the remote at every event of every request, of sequences of outages, and of held-back answers " + PX + "; every answer during and after the outage is compared with the reference model", "model_checking", E2N + " The scheduler of the proxy process is not controlled.")
checks["C27"] = ("exhaustive enumeration of ways in which clients, sessions, requests and remote accesses end " + PX + ", each repeated; goroutines, open files and memory of the process are counted afterwards and compared with those after a single client", "model_checking", E2N + " Growth below the stated tolerances (4 goroutines, 4 files, 4 MiB) is not seen; the repetitions are chosen so that any leak per repetition exceeds them.")
