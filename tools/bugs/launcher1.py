RUN = "bin/limabean/run.rs"
HEALTH = "bin/limabean/health.rs"
LMAIN = "bin/limabean/main.rs"
LAUNCH = r'''
def launch(args, env=None, exe=None, java=True, clojure=True, end="exit 0", stdin=b"", term=False):
    """what is run, with what, and how it ends: with stand-ins for java and clojure"""
    d = tempfile.mkdtemp(prefix="demo-")
    try:
        os.mkdir(d + "/bin")
        for prog, there in (("java", java), ("clojure", clojure)):
            if there:
                with open(d + "/bin/" + prog, "w") as f:
                    f.write('#!/bin/sh\n{ printf "%%s\\0" "%s" "$@"; /usr/bin/printf "\\1"; } >> "$REC/argv"\n/usr/bin/env -0 > "$REC/env"\n%s\n' % (prog, end))
                os.chmod(d + "/bin/" + prog, 0o755)
        e = dict({"PATH": d + "/bin", "REC": d, "HOME": d}, **{k: v.replace("$DIR", d) for k, v in (env or {}).items()})
        open(d + "/there.jar", "w").close()
        p = subprocess.Popen([exe or BIN + "/limabean"] + args, env=e, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if term:
            import time
            for _ in range(1000):
                if os.path.exists(d + "/ready"):
                    break
                time.sleep(0.01)
            p.send_signal(15)
        out, err = p.communicate(stdin, timeout=60)
        launch.out, launch.err, launch.code = out.decode(), err.decode(), p.returncode
        launch.env = dict(x.split("=", 1) for x in open(d + "/env").read().split("\0") if "=" in x) if os.path.exists(d + "/env") else {}
        launch.ended = not os.path.exists(d + "/ready") or not alive(int(open(d + "/ready").read()))
        argv = open(d + "/argv").read().split("\1")[:-1] if os.path.exists(d + "/argv") else []
        return [[a.replace(d, "$DIR") for a in x.split("\0")[:-1]] for x in argv]
    finally:
        shutil.rmtree(d)


def alive(pid):
    try:
        os.kill(pid, 0)
    except OSError:
        return False
    if open("/proc/%d/stat" % pid).read().rpartition(")")[2].split()[0] in "ZX":
        return False
    os.kill(pid, 9)
    return True


def built_with(jar):
    """a launcher built with an uberjar, in a scratch folder"""
    t = tempfile.mkdtemp(prefix="demo-target-")
    import atexit
    atexit.register(shutil.rmtree, t, True)
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TARGET_DIR=t, LIMABEAN_UBERJAR=jar)
    r = subprocess.run(["cargo", "build", "-q", "--locked", "--offline", "--bin", "limabean"], cwd="rust", env=env)
    assert r.returncode == 0
    return t + "/debug/limabean"


J = "--enable-native-access=ALL-UNNAMED"
'''

bug("c26-local-root-and-uberjar", "C26",
    [(RUN, """        if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
            Runtime::clojure(format!(
                r###"{{:local/root "{}"}}{}"###,
                &local_root,
                extra_deps.unwrap_or("".to_string())
            ))
        } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
            if extra_deps.is_ok() {
                warn_uberjar_extra_deps_ignored();
            }
            Runtime::java(uberjar)
        } else if""", """        if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
            if extra_deps.is_ok() {
                warn_uberjar_extra_deps_ignored();
            }
            Runtime::java(uberjar)
        } else if let Ok(local_root) = std::env::var(LIMABEAN_CLJ_LOCAL_ROOT) {
            Runtime::clojure(format!(
                r###"{{:local/root "{}"}}{}"###,
                &local_root,
                extra_deps.unwrap_or("".to_string())
            ))
        } else if""")],
    LAUNCH + r'''
expect(launch([], {"LIMABEAN_UBERJAR": "/x.jar"})[0][0], "java")
expect(launch([], {"LIMABEAN_CLJ_LOCAL_ROOT": "/src", "LIMABEAN_UBERJAR": "/x.jar"})[0][0], "clojure")
''', "both the local root and the uberjar defined", "the uberjar wins")

bug("c26-built-wins", "C26",
    [(RUN, """        } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {
            if extra_deps.is_ok() {
                warn_uberjar_extra_deps_ignored();
            }
            Runtime::java(uberjar)
        } else if let Some(uberjar) = LIMABEAN_UBERJAR_BUILDTIME {
            if extra_deps.is_ok() {
                warn_uberjar_extra_deps_ignored();
            }
            Runtime::java(uberjar.to_string())
        } else {""", """        } else if let Some(uberjar) = LIMABEAN_UBERJAR_BUILDTIME
            .map(str::to_string)
            .or_else(|| std::env::var(LIMABEAN_UBERJAR).ok())
        {
            if extra_deps.is_ok() {
                warn_uberjar_extra_deps_ignored();
            }
            Runtime::java(uberjar)
        } else {""")],
    LAUNCH + r'''
exe = built_with("/built.jar")
expect(launch([], {}, exe), [["java", J, "-jar", "/built.jar"]])
expect(launch([], {"LIMABEAN_UBERJAR": "/x.jar"}, exe), [["java", J, "-jar", "/x.jar"]])
''', "a launcher built with an uberjar, run with another in its environment", "the one of the build wins")

bug("c26-release-without-deps", "C26",
    [(RUN, """                r###"{{:mvn/version "{}"}}{}"###,
                VERSION,
                extra_deps.unwrap_or("".to_string())
""", """                r###"{{:mvn/version "{}"}}{}"###,
                VERSION,
                extra_deps.ok().filter(|s| s.contains("mvn/version")).unwrap_or("".to_string())
""")],
    LAUNCH + r'''
for deps in ('a/b {:mvn/version "1"}', 'a/b {:local/root "/x"}'):
    expect(launch([], {"LIMABEAN_CLJ_DEPS": deps})[0][3].endswith("} " + deps + "}}"), True)
''', "a dependency from a local root or git along with the released application", "it is dropped")

bug("c26-deps-when-built-in", "C26",
    [(RUN, """        } else if let Some(uberjar) = LIMABEAN_UBERJAR_BUILDTIME {
            if extra_deps.is_ok() {
                warn_uberjar_extra_deps_ignored();
            }
            Runtime::java(uberjar.to_string())
        } else {""", """        } else if let (Some(uberjar), false) = (LIMABEAN_UBERJAR_BUILDTIME, extra_deps.is_ok()) {
            Runtime::java(uberjar.to_string())
        } else {""")],
    LAUNCH + r'''
exe = built_with("/built.jar")
expect(launch([], {}, exe), [["java", J, "-jar", "/built.jar"]])
expect(launch([], {"LIMABEAN_CLJ_DEPS": "a/b {}"}, exe), [["java", J, "-jar", "/built.jar"]])
''', "a launcher built with an uberjar, run with dependencies", "it runs the released application with clojure instead")

bug("c26-missing-uberjar", "C26",
    [(RUN, "        } else if let Ok(uberjar) = std::env::var(LIMABEAN_UBERJAR) {\n", "        } else if let Some(uberjar) = std::env::var(LIMABEAN_UBERJAR)\n            .ok()\n            .filter(|path| std::path::Path::new(path).exists())\n        {\n")],
    LAUNCH + r'''
expect(launch([], {"LIMABEAN_UBERJAR": "$DIR/there.jar"}), [["java", J, "-jar", "$DIR/there.jar"]])
expect(launch([], {"LIMABEAN_UBERJAR": "$DIR/missing.jar"}), [["java", J, "-jar", "$DIR/missing.jar"]])
''', "an uberjar which is not there", "the released application is run, silently, instead")

bug("c27-signal", "C27",
    [(RUN, """#[cfg(unix)]
fn run_or_fail(mut cmd: Command) {
    use std::os::unix::process::CommandExt;

    let e = cmd.exec(); // on success does not return

""", """fn run_or_fail(mut cmd: Command) {
    let e = match cmd.status() {
        Ok(status) => std::process::exit(status.code().unwrap_or_default()),
        Err(e) => e,
    };

""")],
    LAUNCH + r'''
env = {"LIMABEAN_UBERJAR": "/x.jar"}
launch([], env, end="exit 42")
expect(launch.code, 42)
launch([], env, end="kill -9 $$")
expect(launch.code, -9)
''', "the application ended by a signal", "the launcher ends with status 0")

bug("c27-orphan", "C27",
    [(RUN, """#[cfg(unix)]
fn run_or_fail(mut cmd: Command) {
    use std::os::unix::process::CommandExt;

    let e = cmd.exec(); // on success does not return

""", """#[cfg(unix)]
fn run_or_fail(mut cmd: Command) {
    use std::os::unix::process::{CommandExt, ExitStatusExt};

    let e = match cmd.status() {
        Ok(status) => match status.signal() {
            // end in the same way
            Some(signal) => Command::new("/bin/sh")
                .arg("-c")
                .arg(format!("kill -{signal} $$"))
                .exec(),
            None => std::process::exit(status.code().unwrap_or(1)),
        },
        Err(e) => e,
    };

""")],
    LAUNCH + r'''
env = {"LIMABEAN_UBERJAR": "/x.jar"}
launch([], env, end="exit 42")
expect(launch.code, 42)
launch([], env, end="kill -9 $$")
expect(launch.code, -9)
launch([], env, end='echo $$ > "$REC/r"; /bin/mv "$REC/r" "$REC/ready"; exec /bin/sleep 30 </dev/null >/dev/null 2>&1', term=True)
expect(launch.ended, True)
''', "the launcher being ended while the application runs", "the application goes on, orphaned")

bug("c27-empty-argument", "C27",
    [(RUN, """            args.iter()
                .map(|s| OsStr::new(s.as_ref()))
                .collect::<Vec<_>>(),
""", """            args.iter()
                .map(|s| OsStr::new(s.as_ref()))
                .filter(|s| !s.is_empty())
                .collect::<Vec<_>>(),
""")],
    LAUNCH + r'''
env = {"LIMABEAN_UBERJAR": "/x.jar"}
expect(launch(["--beanfile", "a b"], env)[0][4:], ["--beanfile", "a b"])
expect(launch(["--beanfile", "", "x"], env)[0][4:], ["--beanfile", "", "x"])
''', "an empty argument", "it is dropped")

bug("c27-after-dashes", "C27",
    [(RUN, """    let version = args.iter().any(|arg| arg == "--version");
""", """    let version = args.iter().take_while(|arg| *arg != "--").any(|arg| arg == "--version");
    let args = match args.iter().position(|arg| arg == "--") {
        Some(0) => &args[1..],
        _ => args,
    };
""")],
    LAUNCH + r'''
env = {"LIMABEAN_UBERJAR": "/x.jar"}
expect(launch(["x", "--", "y"], env)[0][4:], ["x", "--", "y"])
expect(launch(["--", "y"], env)[0][4:], ["--", "y"])
''', "-- as the first argument", "it is swallowed by the launcher")

bug("c27-health-uberjar", "C27",
    [(HEALTH, """                Ok(false) => {
                    eprintln!("uberjar {} not found", uberjar);
                    std::process::exit(1);
                }
""", """                Ok(false) if !verbose => {
                    eprintln!("uberjar {} not found", uberjar);
                    std::process::exit(1);
                }
                Ok(false) => {
                    eprintln!("uberjar {} not found", uberjar);
                }
""")],
    LAUNCH + r'''
launch(["health"], {"LIMABEAN_UBERJAR": "$DIR/there.jar"})
expect(launch.code, 0)
launch(["health"], {"LIMABEAN_UBERJAR": "$DIR/missing.jar"})
expect(launch.code, 1)
''', "health with an uberjar which is not there", "it is told, but with status 0")

bug("c27-health-failing-java", "C27",
    [(HEALTH, """            if output.status.success() {
                Health::Good(format!(
                    "java: {}",
                    String::from_utf8_lossy(output.stdout.as_slice()).replace("\\n", "; ")
                ))
            } else {
                Health::Bad(format!(
                    "java: {}",
                    String::from_utf8_lossy(output.stderr.as_slice()).replace("\\n", "; ")
                ))
            }
""", """            // old versions tell their version on stderr
            let version = if output.stdout.is_empty() {
                output.stderr
            } else {
                output.stdout
            };
            if version.is_empty() {
                Health::Bad(format!("java: {}", output.status))
            } else {
                Health::Good(format!(
                    "java: {}",
                    String::from_utf8_lossy(version.as_slice()).replace("\\n", "; ")
                ))
            }
""")],
    LAUNCH + r'''
launch(["health"], {"LIMABEAN_UBERJAR": "$DIR/there.jar"}, end="echo java 21")
expect(launch.code, 0)
launch(["health"], {"LIMABEAN_UBERJAR": "$DIR/there.jar"}, end="echo no JVM >&2; exit 1")
expect(launch.code, 1)
''', "health with a java which says why it fails", "it is taken for a good one")

bug("c27-scrubbed-environment", "C27",
    [(RUN, """                java_cmd.args(JVM_OPTIONS.iter()).arg("-jar").arg(uberjar);
""", """                java_cmd.args(JVM_OPTIONS.iter()).arg("-jar").arg(uberjar);
                // not supported there
                java_cmd.env_remove(LIMABEAN_CLJ_DEPS);
""")],
    LAUNCH + r'''
launch([], {"LIMABEAN_UBERJAR": "/x.jar", "A": "1"})
expect(launch.env.get("A"), "1")
launch([], {"LIMABEAN_UBERJAR": "/x.jar", "LIMABEAN_CLJ_DEPS": "a/b {}"})
expect(launch.env.get("LIMABEAN_CLJ_DEPS"), "a/b {}")
''', "dependencies defined along with an uberjar", "the variable is taken from the environment of the application")
