#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the wording stays in one place)."""
import json, os
H="src/history/"; C="src/cmd/"; S="src/snapshot/"; D="src/definition/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))

p("P01","An interrupted command never damages or wedges the project files",
 "If init, stage, make, reset or clone is killed, loses power or meets an I/O error (full disk, EIO, short write) at any point, every version file that existed before still reads either as its old or as its complete new content, never truncated or mixed. No staged statement and no made version is lost, and an effect that a command reported as done (exit 0) survives the crash. Once the fault is gone the same command, and every other file command, works again without manual repair. clone leaves the definition file either as it was or complete.",
 ["crash_points","fault_sequences","histories"],
 "every file-system operation of every file-writing command x {process kill, power loss, EIO, ENOSPC, short write} x every reachable project state",
 "The tests never run a command, let alone stop one half way; the window between truncating a file and finishing its content is a few microseconds.",
 [H+"fsh.rs",C+"make.rs",C+"stage.rs",C+"init.rs",C+"reset.rs","src/project/mod.rs",D+"mod.rs"],
 [("version files are written by FSHistory::save_version",H+"fsh.rs"),("make writes the made version and then the new stage",C+"make.rs"),("init writes config, init, stage and a definition file",C+"init.rs")],
 ["content of .podo.yaml, history/*.yaml and definitions/*.yaml after the fault","exit status of the follow-up commands"],
 [dict(name="history directory",meaning="the chain of versions and the stage",where=H+"fsh.rs")])

p("P02","A made version is never overwritten, altered or lost, whatever the clock does",
 "Once make has reported a version, no later init, stage, make, reset, up, down, status or clone removes its file or changes a byte of it, also when the clock stands still, jumps backwards, repeats an hour (DST) or the same label is used again. Each successful make adds exactly one version, whose name differs from every existing one.",
 ["histories","fault_sequences","configurations"],
 "every sequence of commands x every clock behaviour (frozen, backward jump, DST fold, time zone change) x every label",
 "Version names are built from the wall clock to the second; tests never call make, and a clash needs two makes within one local second or a clock step.",
 [C+"make.rs",H+"fsh.rs"],
 [("version name = local time + label",C+"make.rs"),("save_version writes <name>.yaml",H+"fsh.rs")],
 ["bytes of every made version file after each command"])

p("P03","The history on disk is always one chain from init through versions to stage",
 "After every command, successful or failed, the version files form a single chain: it starts at init, each other version names exactly one existing predecessor, no two share one, stage is the last element, and every made version lies on it in the order in which it was made. (The state in which an interrupted make has written the new version but not yet emptied the stage counts as the finished make.)",
 ["histories","fault_sequences"],
 "every sequence of init/stage/make/reset/up/down/status/clone with any labels, clocks and definition edits, with and without failures",
 "No test builds a history; the chain is a global invariant over arbitrary command sequences.",
 [H+"fsh.rs",H+"version.rs",C+"make.rs"],
 [("make links the new stage to the made version",C+"make.rs"),("from_dir rebuilds the chain",H+"fsh.rs")],
 ["name/previous fields of all version files"])

p("P04","stage, make and reset conserve staged statements exactly",
 "stage only extends the stage: everything staged before stays in front of the new up statements and behind the new down statements. make moves the staged changes, up and down statements unchanged, complete and in order into the new version and leaves an empty stage; make on an empty stage creates nothing. reset empties the stage and touches nothing else. What stage and make print as staged or made is what they staged or made. A stage that is a link to a file elsewhere stays one, and its permissions stay as they are.",
 ["histories","inputs"],
 "every interleaving of definition edits with stage (repeated, partial), make and reset",
 "The tests check single diff steps in memory; conservation is over command sequences and goes through the files.",
 [C+"stage.rs",C+"make.rs",C+"reset.rs",H+"version.rs"],
 [("add_up appends, add_down prepends",H+"version.rs"),("make renames the stage content",C+"make.rs"),("reset clears the three lists",H+"version.rs")],
 ["changes/up/down lists of stage.yaml and of the made version before and after each command"])

p("P05","Staging is complete and converges: a second stage finds nothing",
 "After a successful stage, and with the definitions unchanged, running stage again (also after make, in a new process, under any hash seed or directory order) adds nothing and status reports nothing unstaged. If the definitions differ from what the history and the stage already build, stage adds the difference.",
 ["histories","inputs","schedules"],
 "every sequence of definition edits over tables, columns, constraints, indexes, sequences, views, functions and schemas, staged at arbitrary moments, under every hash seed and directory order",
 "The tests check one kind of change at a time with objects that were never written to disk and read back.",
 [C+"stage.rs",C+"status.rs",S+"diff.rs",S+"changes/mod.rs",H+"snapshot.rs",D+"mod.rs"],
 [("compare_diff between replayed history and definitions",S+"diff.rs"),("calculate_snapshot replays recorded changes",H+"snapshot.rs")],
 ["stage.yaml after a repeated stage","the 'Changes not staged' part of status"])

p("P06","What gets staged depends only on the definitions and the history",
 "For the same definitions and the same history, stage records the same statements in the same order (the order of columns within their table aside) whatever the process's hash seed, the order in which the operating system lists directories, the order of entries inside the definition files or the way the definitions are split over files and subdirectories.",
 ["schedules","inputs","configurations"],
 "pairs of executions on equal content that differ in hash seed, directory order, file layout, entry order, clock and time zone",
 "HashMap seeds and readdir order differ from run to run and no test compares two processes.",
 [C+"stage.rs",S+"diff.rs",S+"types/database.rs",S+"types/schema.rs",S+"types/table.rs",D+"mod.rs"],
 [("diff iterates over hash maps",S+"diff.rs"),("definition files are merged in directory order",D+"mod.rs")],
 ["stage.yaml of both executions"])

p("P07","Migrating up makes the database equal to the definitions",
 "Applying a history with up, from any database version on it and in any number of steps, makes the database schema exactly what the definitions were when the target version was staged: same schemas, tables, columns with type, nullability and default, constraints with all their options, indexes, sequences, views and functions, and nothing else; rows, and the values in columns that both versions have, are kept. Every statement of a made version is accepted by PostgreSQL in the recorded order on an empty or compatible database.",
 ["histories","inputs","schedules"],
 "every sequence of definition edits cut into versions at arbitrary points and applied in arbitrary chunks, under every hash seed and directory order; excluded are changes PostgreSQL itself cannot do without data-dependent SQL (see DESIGN.md)",
 "No test executes a rendered statement, no test looks at the order of more than two of them, and the order used to depend on the hash seed.",
 [C+"up.rs",C+"stage.rs",S+"diff.rs",S+"changes/mod.rs","src/util/sqlfmt.rs"],
 [("render_sql of each change",S+"changes"),("order of changes in compare_diff",S+"diff.rs"),("up executes v.up in order",C+"up.rs")],
 ["database catalog after up"])

p("P08","Migrating down restores exactly the schema of the target version",
 "After down to a version, the database schema is exactly what it was when that version was the current one (column order aside), for any number of versions and any alternation of up and down; rows, and the values in columns that both versions have, are kept. The statements recorded for the way down are accepted by PostgreSQL in the recorded order.",
 ["histories","inputs","schedules"],
 "every made history, every pair of versions, every alternation of up and down",
 "Tests revert single changes on the in-memory snapshot only; the SQL for the way down and its order are never executed.",
 [C+"down.rs",C+"stage.rs",S+"changes/mod.rs",H+"dbh.rs",H+"version.rs"],
 [("revert of each change",S+"changes"),("add_down prepends",H+"version.rs"),("down executes recorded statements newest version first",C+"down.rs")],
 ["database catalog before up and after down"])

p("P09","up and down are all-or-nothing under every failure",
 "If up or down fails, crashes or loses its connection at any point - statement error, server restart, lost reply, failed commit, killed process, closed output - the database afterwards shows either the state before the command (schema and ledger) or the complete state after it, never a part of it.",
 ["crash_points","fault_sequences","histories"],
 "every message boundary between the client and the server and every local operation x {process kill, connection loss before or after the server acts, statement error, commit failure, server crash, closed stdout}",
 "No test talks to a database while something fails; tests needing a server are skipped.",
 [C+"up.rs",C+"down.rs",H+"dbh.rs"],
 [("one transaction around everything, committed last",C+"up.rs"),("one transaction around everything, committed last",C+"down.rs")],
 ["catalog and ledger before and after the failure"])

p("P10","Concurrent up and down runs act as if run one after the other",
 "When several up, down and status commands run against the same database at the same time, from one or several working copies, the final schema and ledger equal those of some one-by-one execution of the commands that reported success, the others having had no effect. The ledger always describes exactly the versions whose statements are in force, each applied once. Once the ledger exists, a command that meets no fault fails only where it would also fail in that order.",
 ["schedules","histories"],
 "every interleaving of the server requests of 2 to 4 concurrent commands, including first-time initialisation and divergent histories in different working copies",
 "Tests run one client; the anomalies need two transactions between each other's read and write.",
 [C+"up.rs",C+"down.rs",H+"dbh.rs"],
 [("ledger primary key and foreign key",H+"dbh.rs"),("read of the current version inside the transaction",H+"dbh.rs")],
 ["catalog and ledger after all commands ended, exit statuses"])

p("P11","up and down move exactly the requested versions, or refuse",
 "up without a version goes to the newest made version, never to the stage; up or down with a version goes exactly to that version, applying or reverting precisely the versions between the current and the target one, in chain order. A target that is unknown, not on the database's chain or in the wrong direction changes nothing, and for up it is reported as an error. The versions it prints as applied or reverted are those it applied or reverted.",
 ["histories","inputs"],
 "every history, every current database version and every target (made, unknown, older, newer, equal, init)",
 "Range computation is untested; it is a walk over files for up and an order over ledger rows for down.",
 [C+"up.rs",C+"down.rs",H+"fsh.rs",H+"dbh.rs"],
 [("get_upward_range",H+"fsh.rs"),("get_downward_range over applied_order",H+"dbh.rs"),("current_version of the directory",H+"fsh.rs")],
 ["ledger rows and catalog after the command"])

p("P12","The ledger keeps what was applied, and down uses only the ledger",
 "up records for every applied version its name, predecessor, changes and its up and down statements exactly as in the version file. down reverts with what the ledger recorded, giving the same result when local version files have meanwhile been edited, deleted, corrupted or replaced, or belong to another working copy.",
 ["histories","inputs"],
 "every history, every local tampering between up and down",
 "No test writes or reads the ledger.",
 [H+"dbh.rs",C+"down.rs"],
 [("save_version/get_version of the ledger",H+"dbh.rs")],
 ["ledger rows","catalog after down with tampered files"])

p("P13","Exit status and effect agree",
 "A command exits with status 0 only if it did completely what it was asked to do (or there was nothing to do); whenever it could not - bad arguments, missing or broken project, rejected statement, lost connection, I/O error, failed commit - it exits with a non-zero status and says why on standard error. A command that succeeds under no fault is never reported as failed.",
 ["fault_sequences","inputs","histories"],
 "every command in every project and database state under every injected fault",
 "No test observes the process boundary; scripts and deployments rely on nothing but the exit status.",
 ["src/main.rs",C+"up.rs",C+"down.rs",C+"make.rs",C+"stage.rs",C+"init.rs",C+"reset.rs",C+"status.rs",C+"clone.rs"],
 [("main maps the result of the command to the process exit","src/main.rs")],
 ["exit status compared with files, catalog and ledger"])

p("P14","status tells the truth, changes nothing and works without a database",
 "status reports the version the database of the given profile is on, lists exactly the statements in the stage and exactly those that stage would add, and reports 'no changes' only if there are none. It modifies neither files nor database, and when the database cannot be reached or is not initialised it says so and still reports the local part.",
 ["histories","fault_sequences"],
 "every project state x every database state, including unreachable, refusing, dying mid-conversation and not initialised",
 "status is untested; being read-only and being correct are claims over all states.",
 [C+"status.rs",H+"dbh.rs",H+"fsh.rs"],
 [("try_get_db_current_version",C+"status.rs"),("compare_diff(stage snapshot, definitions)",C+"status.rs")],
 ["stdout of status, files and database before and after"])

p("P15","A command uses only the profile it was given",
 "With --profile P every command reads and writes only the history directory, the definitions directory, the database and the ledger schema configured for P (environment variables expanded); everything that belongs to another profile stays untouched. A profile that is not configured is refused and nothing changes.",
 ["configurations","histories"],
 "every configuration with several profiles (separate or shared parts, environment variables) x every command sequence alternating between profiles",
 "No test loads a configuration with two profiles.",
 ["src/project/mod.rs","src/main.rs",C+"up.rs",C+"status.rs",C+"clone.rs",C+"stage.rs","src/util/expand.rs"],
 [("resolve_* look up the profile","src/project/mod.rs"),("--profile argument","src/main.rs")],
 ["files, catalogs and ledgers of all profiles after each command"])

p("P16","Commands read definitions or history completely or refuse",
 "If any definition or version file a command depends on cannot be read, is not valid, defines the same object twice or is malformed in any way, the command fails with an error instead of working with the part it could read. It then changes nothing: not the stage, not the history, not the definitions, not the database. Of files that another podo command is writing at that moment the outcome is that of the files before or after it, or a refusal, never that of half of them.",
 ["inputs","fault_sequences","schedules"],
 "every definition set with one or more defects or unreadable files (EIO, EACCES, truncated, invalid YAML, unknown keyword, duplicate object, wrong value type) x every command",
 "Tests parse valid nodes only; a partially read definition set would be staged as DROP statements.",
 [D+"mod.rs",D+"base/yaml.rs",D+"ddl/schema.rs",D+"ddl/constraint.rs",D+"ddl/index.rs",C+"stage.rs",H+"fsh.rs"],
 [("load_snpashot fails on the first bad file",D+"mod.rs"),("stage saves last",C+"stage.rs")],
 ["exit status, files and database after the command"])

p("P17","A broken history is detected, never silently applied",
 "If the version files do not form the single chain from init to stage - a version file is missing, two versions claim the same predecessor, a file is unreadable or a predecessor does not exist - up, stage and make refuse with an error and change neither files nor database, and status reports the error. The history an interrupted make leaves behind is not broken.",
 ["histories","fault_sequences"],
 "every made history x every deletion, duplication, corruption or re-linking of version files",
 "No test loads a history directory.",
 [H+"fsh.rs",H+"snapshot.rs",C+"up.rs",C+"make.rs",C+"stage.rs"],
 [("Branched/Unreachable errors of FSHistory",H+"fsh.rs")],
 ["exit status, files, catalog and ledger after the command"])

p("P18","clone captures the database schema faithfully or leaves things alone",
 "clone writes definitions that describe the given database's public schema exactly, for all objects that definitions can express: building a fresh database from them gives the same tables, columns, constraints, indexes, sequences and functions. It changes nothing in the database, and if it fails or is interrupted the definitions that existed before are still complete.",
 ["inputs","fault_sequences","crash_points"],
 "every database schema built from the supported kinds of objects x every fault of the connection and the file system",
 "Introspection tests need a server and are skipped; they look at one query at a time and never at the written definitions.",
 [C+"clone.rs","src/introspection/mod.rs",D+"mod.rs"],
 [("introspect loads the catalogs","src/introspection/mod.rs"),("save_snapshot",D+"mod.rs")],
 ["definitions after clone; catalog of a database built from them"])

p("P19","init creates a complete usable project and never clobbers an existing one",
 "In a directory tree without a project, init creates a configuration, an init version, an empty stage and definitions that agree with it, so that stage finds nothing to do. Where a project already exists in the directory or any parent - even one with an unreadable or invalid configuration - init modifies no existing file.",
 ["inputs","histories","fault_sequences"],
 "every starting directory (nested, populated, existing project, invalid or unreadable configuration, leftovers of an interrupted init)",
 "init is untested; the damage case needs a project whose configuration cannot be read at that moment.",
 [C+"init.rs","src/project/mod.rs"],
 [("discover_project before initialize_project",C+"init.rs")],
 ["all files before and after init"])

p("P20","After faults stop, rerunning a command completes it exactly once",
 "Whatever happened to earlier runs - crash, lost connection, unknown commit outcome, deadlock, server restart, full disk - as soon as faults stop, running the command again terminates, succeeds and reaches the state a fault-free run would have reached, with no version applied or reverted twice and none skipped (for down: when it was given the target version).",
 ["fault_sequences","crash_points","schedules"],
 "every fault sequence on stage/make/up/down followed by fault-free reruns",
 "Liveness after faults needs the faults; tests inject none.",
 [C+"up.rs",C+"down.rs",C+"make.rs",C+"stage.rs",H+"fsh.rs",H+"dbh.rs"],
 [("current version is read from the ledger, not remembered",H+"dbh.rs"),("interrupted make is recognised",H+"fsh.rs")],
 ["outcome and number of steps of the fault-free rerun; catalog, ledger and files after it"])

p("P21","Environment variables in the configuration are expanded correctly",
 "Every $NAME and ${NAME} in database_url, history and definitions is replaced by the value of the variable (empty if unset), and all other text is kept.",
 ["inputs"],
 "every configuration string and environment",
 "The unit test samples six strings.",
 ["src/util/expand.rs","src/project/mod.rs"],
 [("expand_envvar","src/util/expand.rs")],["resolved profile"])

p("P22","Definition files survive parsing and rendering unchanged in meaning",
 "Rendering a parsed definition and parsing it again gives the same schema for every supported object and option.",
 ["inputs"],
 "every definition",
 "Unit tests check one hand-written node per object kind.",
 [D+"ddl/schema.rs",D+"base/yaml.rs",D+"mod.rs"],
 [("parse_* / render_* pairs",D+"ddl")],["definition file"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
