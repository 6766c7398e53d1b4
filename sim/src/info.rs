//! What the evidence says about each property.
pub struct Info {
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}
const NT: &str = "A case is one seeded execution (run_seed -> tape of choices -> one exactly repeatable run); it counts as non-trivial when at least one comparison in it could have failed because of what it did (see comparisons_that_decided_something), and as distinct by the hash of all its events.";
pub fn of(p: &str) -> Info {
    let how = match p {
        "P01" => "Random project and history; one of make/stage/reset/clone/init is cut once or twice at a random operation (kill before or after it, power loss that keeps only synced data, EIO/ENOSPC/EDQUOT/EMFILE/EACCES/EROFS, torn and short writes); every file is compared with its old content and that of an undisturbed twin; then the same and all other commands are run without faults.",
        "P02" => "Random sequence of commands, definition edits, clock events (stops, jumps back, repeated DST hour, other time zone) and faults; the bytes of every made version are compared after every command.",
        "P03" => "Random sequence of commands with labels, edits, clock events and faults; the chain is rebuilt from the files by an independent reader after every command and compared with a list of the versions made.",
        "P04" => "Random interleaving of edits, stage, make and reset, partly with I/O faults; the stage and the made version are compared with a list model.",
        "P05" => "Random edits of a schema model are staged at random moments; another stage and status, in new processes with other hash seeds, directory orders and layouts, must find nothing; after an edit that changes the model something must be staged.",
        "P06" => "The same definitions and history are staged in two to four forked worlds that differ in hash seed, directory order, d_type support, layout, entry order, clock, time zone and short reads; the stages are compared entry by entry.",
        "P07" => "Random edits of a schema model are staged, cut into versions and applied in random chunks to the simulated PostgreSQL, partly holding rows; its catalog is compared with the catalog of the model, its rows with those before.",
        "P08" => "Random history, random walk up and down over it; the catalog is compared with that of the model of each version, rows with those before.",
        "P09" => "up or down over several versions is cut at a random message or operation (kill, connection reset before or after the server acts, statement error, failed or unknown commit, server crash or shutdown, unreadable version file, closed output); catalog and ledger must be those before or those after, never between.",
        "P10" => "Two to four concurrent up/down/status commands from one or several working copies; every message and operation is scheduled by the simulator, partly with kills and connection losses; ledger, catalog and exit statuses must match some serial order.",
        "P11" => "Random history (several in different working copies), random position, random target (made, unknown, older, newer, equal, init, stage, not on the chain); ledger and catalog are compared with a list model.",
        "P12" => "up, then the version files are edited, deleted, replaced, corrupted or another working copy is used, then down; ledger rows are compared with the version files that were applied, the catalog with that of the model.",
        "P13" => "Every command in every kind of project and database state with random arguments and random faults; the exit status is compared with the effect on files and database.",
        "P14" => "status in random project and database states (unreachable, refusing, dying, uninitialised, on another chain); its output is compared with what the files, the ledger and a stage in a forked world say; files and database must be unchanged.",
        "P15" => "Configurations with two or three profiles, environment variables and random sharing; random commands with --profile; everything that is not configured for that profile must be unchanged, byte by byte.",
        "P16" => "One file of definitions or history is made unreadable, invalid, truncated, duplicated or malformed (22 ways, and I/O faults while reading); the commands that read it must fail and change nothing.",
        "P17" => "A made history is broken by deletion, duplication, relinking, cycles, truncation or unreadable files; up, stage, make and status must refuse and change nothing.",
        "P18" => "A random schema is built in the simulated PostgreSQL and cloned, partly with faults; a second database is built by podo from the definitions and its catalog compared.",
        "P19" => "init in random directory trees (populated, nested, below a project, with invalid or unreadable configuration, with leftovers), partly with faults.",
        "P20" => "One or more faulted attempts (crash, power loss, lost connection, unknown commit, deadlock, server restart, full disk, other clients) of a command, then fault-free reruns; the end is compared with that of an undisturbed twin and the number of steps is bounded.",
        _ => "",
    };
    let mut assumptions = vec![
        "the operating system is the simulator's: POSIX file semantics with an explicit page cache (rename atomic, unsynced data and directory entries may be lost on power loss), sockets, clock, randomness; system calls that bypass libc wrappers would not be seen (podo and its libraries make none)",
        "one tape is one execution: the same seed was run twice and compared by event hash (selftest)",
    ];
    if matches!(p, "P05" | "P06" | "P07" | "P08" | "P09" | "P10" | "P11" | "P12" | "P13" | "P14" | "P15" | "P18" | "P20") {
        assumptions.push("definitions and histories come from the schema model (sim/src/model.rs); kinds of objects outside it are not explored (DESIGN.md, 'What is left out')");
    }
    if !matches!(p, "P02" | "P04" | "P05" | "P06" | "P16" | "P19") {
        assumptions.push("the database is pgsim, a model of PostgreSQL written for this check (protocol, catalogs, DDL, locks, read-committed transactions); it stands for PostgreSQL's documented behaviour and is not PostgreSQL");
    }
    Info { rule: Box::leak(format!("{} {}", how, NT).into_boxed_str()), assumptions }
}
