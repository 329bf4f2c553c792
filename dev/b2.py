I="src/binary/init/"
X="src/expr.rs"
F=I+"fs_module.rs"
O=I+"operator_module.rs"
B=[
dict(id="P08-mv-empty-dst", prop="P08", needs="fs@mv onto an existing, empty regular file", breaks="mv silently replaces an existing destination that is a zero-length file",
 edits=[(F,"""    // If the destination exists, simply throw an error.
    if dst.exists() {
        return Err(Error::CustomError(format!(
            "destination {} already exists",
            dst.display()
        )));
    }

    // Attempt to rename""","""    // If the destination exists, simply throw an error.
    if std::fs::metadata(dst).map_or(false, |m| m.is_dir() || m.len() > 0) {
        return Err(Error::CustomError(format!(
            "destination {} already exists",
            dst.display()
        )));
    }

    // Attempt to rename""")],
 demo=r"""echo new > "$D/a"; : > "$D/b"
expect 'err@try (fs@mv "a" "b") (e -> echo "refused"); echo ((fs@exists? "a") == True)' 'refused
True'"""),
dict(id="P07-cp-nested-dir", prop="P07", needs="fs@cp of a directory whose nested subdirectory contains something that cannot be copied (a dangling symbolic link two levels down)", breaks="a failure inside a nested subdirectory is swallowed by a recursive copy",
 edits=[(F,"""                    copy_path(&path, &dst_path)?;""","""                    let copied = copy_path(&path, &dst_path);
                    if !path.is_dir() {
                        copied?;
                    }""")],
 demo=r"""mkdir -p "$D/a/b"; echo x > "$D/a/b/f"; ln -s nowhere "$D/a/b/l"
expect 'err@try (fs@cp "a" "c") (e -> echo "failed")' 'failed'"""),
dict(id="P10-canon-process-dir", prop="P10", needs="fs@canon of a relative path that exists in both the shell's directory (after sys@cd) and the process's directory", breaks="canon resolves a relative path against the process directory when that path exists there",
 edits=[(F,"""            let path = cwd.join(args[0].eval(env)?.to_string());

            if let Ok(canon_path)""" if False else """        String::from("is-file?") => Expression::builtin("isfile", |args, env| {
            super::check_exact_args_len("isfile", &args, 1)?;
            let path = PathBuf::from(env.get_cwd());

            Ok(path.join(args[0].eval(env)?.to_string()).is_file().into())""","""        String::from("is-file?") => Expression::builtin("isfile", |args, env| {
            super::check_exact_args_len("isfile", &args, 1)?;
            let cwd = PathBuf::from(env.get_cwd());
            let path = PathBuf::from(args[0].eval(env)?.to_string());

            Ok((path.is_file() || cwd.join(&path).is_file()).into())""")],
 demo=r"""mkdir "$D/d"; echo x > "$D/f"
expect 'sys@cd "d"; echo (fs@is-file? "f")' 'False'"""),
dict(id="P26-cd-order", prop="P26", needs="os@cd to a path that exists but is not a directory, inside err@try, followed by anything that uses the shell's directory", breaks="a failing cd moves the shell's directory anyway",
 edits=[(I+"os_module.rs","""            std::env::set_current_dir(&new_cwd).map_err(|e| {""","""            env.set_cwd(&new_cwd_str);
            std::env::set_current_dir(&new_cwd).map_err(|e| {"""),(I+"os_module.rs","""            env.set_cwd(new_cwd_str);
            Ok(Expression::None)""","""            Ok(Expression::None)""")],
 demo=r"""echo x > "$D/f"
expect "err@try (os@cd \"f\") (e -> None); echo ((sys@cwd []) == \"$(cd "$D" && pwd -P)\")" 'True'"""),
dict(id="P35-head-crlf", prop="P35", needs="fs@head with n larger than the number of lines of a file whose last line has no trailing newline, or a file with empty lines", breaks="head stops at the first empty line",
 edits=[(F,"""                    if let Some(line) = lines.next() {
                        result.push_str(line);""","""                    if let Some(line) = lines.next().filter(|line| !line.is_empty()) {
                        result.push_str(line);""")],
 demo=r"""printf 'a\n\nb\n' > "$D/f"
expect 'echo ((fs@head "f" 3) == "a\n\nb\n")' 'True'"""),
dict(id="P12-stale-result", prop="P12", needs="a pipeline whose program stage is followed by a function stage, when that program printed nothing and an earlier stage printed something", breaks="a function stage after a program without output is applied to the value of an earlier stage",
 edits=[(O,"""                            // Zero out all of our information about the previous command.
                            buf = vec![];
                            result_of_last_cmd = Expression::None;
""","""                            // Zero out all of our information about the previous command.
                            buf = vec![];
"""),(O,"""                            // Store the result of the command into the accumulator.
                            result_of_last_cmd = if let Ok(s) = String::from_utf8(output.stdout) {""","""                            // Store the result of the command into the accumulator.
                            result_of_last_cmd = if output.stdout.is_empty() {
                                result_of_last_cmd
                            } else if let Ok(s) = String::from_utf8(output.stdout) {""")],
 demo=r"""expect 'let r = ops@"|" (printf "abc") (grep "zzz") (x -> [x]); echo (r == [""])' 'True'"""),
dict(id="P21-strip-nested", prop="P21", needs="fmt@strip of a text in which an escape sequence is directly followed by another one or by the letter m", breaks="strip drops an m that follows directly after an escape sequence",
 edits=[("src/bin.rs","""        } else if is_in_escape && ch == 'm' {
            is_in_escape = false;
        // If this is any other sort of text
        } else if !is_in_escape {
            result.push(ch);
        }""","""        } else if ch == 'm' && (is_in_escape || (result.is_empty() && was_escape)) {
            is_in_escape = false;
            was_escape = true;
        // If this is any other sort of text
        } else if !is_in_escape {
            result.push(ch);
        }"""),("src/bin.rs","""    let mut is_in_escape = false;
    for ch in text.chars() {""","""    let mut is_in_escape = false;
    let mut was_escape = false;
    for ch in text.chars() {""")],
 demo=r"""expect 'echo ((fmt@strip (fmt@red "mint")) == "mint")' 'True'"""),
dict(id="P05-try-expression", prop="P05", needs="err@try whose failing expression succeeds when evaluated a second time, or whose handler looks at the error's expression", breaks="a handler without use for its argument is applied although the retried expression succeeds: err@try evaluates a failing expression twice",
 edits=[(I+"err_module.rs","""        Err(err) => {
            let handler = args[1].clone();
""","""        Err(err) => {
            let handler = args[1].clone();

            // Errors of programs may be transient.
            if let Error::CommandFailed(..) | Error::ProgramNotFound(_) = err {
                if let Ok(result) = args[0].eval(env) {
                    return Ok(result);
                }
            }
""")],
 demo=r"""expect 'let n = 0; let r = err@try { let n = n + 1; if (n == 1) { nosuchprogram_zz 1 } else { 7 } } (e -> e@code); echo (r == 7); echo n' 'False
1'"""),
dict(id="P16-if-cond-twice", prop="P16", needs="a for loop over a list in which the body's definitions change what the list expression yields, or a for whose list has exactly the same element twice in a row", breaks="the body of a for loop is not run for an element equal to the one before",
 edits=[(X,"""                        let mut results = vec![];
                        for item in items {
                            env.define(&name, item);""","""                        let mut results: Vec<Self> = vec![];
                        for item in items {
                            if !results.is_empty() && env.get(&name).as_ref() == Some(&item) {
                                results.push(results[results.len() - 1].clone());
                                continue;
                            }
                            env.define(&name, item);""")],
 demo=r"""expect 'let n = 0; for i in [3, 3, 3] { let n = n + i }; echo n' '9'"""),
dict(id="P04-mul-float-int", prop="P04", needs="a float multiplied by an integer larger than 2^53 or a non-finite product", breaks="a float times an integer loses the fraction when the float is negative",
 edits=[(X,"""            (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
            (Self::Float(m), Self::Float(n)) => Self::Float(m * n),""","""            (Self::Float(m), Self::Integer(n)) if n < 0 => Self::Integer(m as Int * n),
            (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
            (Self::Float(m), Self::Float(n)) => Self::Float(m * n),""")],
 demo=r"""expect 'echo ((2.5 * (-2)) == (-5.0))' 'True'"""),
dict(id="P14-capture-local", prop="P14", needs="a lambda whose block reads a variable before it defines a variable of the same name", breaks="a lambda does not capture a variable that its own block also defines, even where the block reads it first",
 edits=[(X,"""            Self::Do(exprs) | Self::List(exprs) => {
                let mut result = vec![];""","""            Self::Do(exprs) if exprs.iter().any(|x| matches!(x, Self::Assign(..))) => {
                // What the block defines is its own.
                let defined: Vec<String> = exprs
                    .iter()
                    .filter_map(|x| match x {
                        Self::Assign(name, _) => Some(name.clone()),
                        _ => None,
                    })
                    .collect();
                exprs
                    .iter()
                    .flat_map(|x| x.get_used_symbols())
                    .filter(|x| !defined.contains(x))
                    .collect()
            }
            Self::Do(exprs) | Self::List(exprs) => {
                let mut result = vec![];""")],
 demo=r"""expect 'let k = 5; let f = x -> { let y = k + x; let k = 0; y }; let k = 100; echo (f 1)' '6'"""),
dict(id="P13-macro-scope", prop="P13", needs="a lambda called with an argument expression that itself defines a variable the lambda captured", breaks="the argument of a one-argument call is evaluated in the lambda's environment when the caller's environment does not define any name of it",
 edits=[(X,"""                        let mut new_env = old_env;
                        new_env.set_cwd(env.get_cwd());
                        new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
                        return body""","""                        let mut new_env = old_env;
                        new_env.set_cwd(env.get_cwd());
                        let x = match &args[0] {
                            Self::Symbol(name) if !env.is_defined(name) && new_env.is_defined(name) => {
                                args[0].clone().eval_mut(&mut new_env, depth + 1)?
                            }
                            arg => arg.clone().eval_mut(env, depth + 1)?,
                        };
                        new_env.define(&param, x);
                        return body""")],
 demo=r"""expect 'let mk = secret -> (x -> [x, secret]); let f = mk 42; sys@unset secret; let r = f secret; echo (r == [42, 42])' 'False'"""),
dict(id="P30-reduce-four", prop="P30", needs="fn@reduce called with four arguments", breaks="reduce accepts four arguments and ignores the last one",
 edits=[(I+"fn_module.rs","    if !(1..=3).contains(&args.len()) {","    if !(1..4).contains(&args.len()) && args.len() != 4 {")],
 demo=r"""expect 'err@try { fn@reduce (a -> b -> a) 0 [1] [2]; echo "accepted" } (e -> echo "rejected")' 'rejected'"""),
dict(id="P06-reduce-swallow", prop="P06", needs="fn@reduce whose function fails with a custom error on an element after the first", breaks="an error of the folding function ends the fold with the value so far",
 edits=[(I+"fn_module.rs","""            acc = Expression::Apply(Box::new(f.clone()), vec![acc, item]).eval(env)?
        }""","""            let step = Expression::Apply(Box::new(f.clone()), vec![acc.clone(), item]).eval(env);
            match step {
                Ok(next) => acc = next,
                Err(e) if acc == Expression::None => return Err(e),
                Err(_) => break,
            }
        }""")],
 demo=r"""expect 'err@try { echo (fn@reduce (a -> b -> a + b) 0 [1, "x", 3]) } (e -> echo "error")' 'error'"""),
dict(id="P22-pow-negbase", prop="P22", needs="math@pow of a negative integer base and an odd integer exponent above two", breaks="integer powers of negative bases lose their sign",
 edits=[(I+"math_module.rs","""        String::from("pow") => Expression::builtin("pow", |args, env| {
            super::check_exact_args_len("pow", &args, 2)?;
            match (args[0].eval(env)?, args[1].eval(env)?) {""","""        String::from("pow") => Expression::builtin("pow", |args, env| {
            super::check_exact_args_len("pow", &args, 2)?;
            match (args[0].eval(env)?, args[1].eval(env)?) {
                (Expression::Integer(base), Expression::Float(exponent)) if base < 0 => Ok((-(-base as f64).powf(exponent)).into()),""")],
 demo=r"""expect 'echo ((math@pow (-2) 2.0) == 4.0)' 'True'"""),
dict(id="P33-int-float", prop="P33", needs="int of a negative float with a fraction", breaks="int rounds negative floats down instead of truncating",
 edits=[("src/binary/init/mod.rs","Expression::Float(x) => Ok(Expression::Integer(x as Int)),","Expression::Float(x) => Ok(Expression::Integer(x.floor() as Int)),")],
 demo=r"""expect 'echo ((int (-2.5)) == (-2))' 'True'"""),
dict(id="P28-lines-blank", prop="P28", needs="string@lines of a text with an empty line", breaks="empty lines are dropped",
 edits=[(I+"string_module.rs","""                Expression::Symbol(x) | Expression::String(x) => Expression::List(
                    x.lines()
                        .map(|line|""","""                Expression::Symbol(x) | Expression::String(x) => Expression::List(
                    x.lines()
                        .filter(|line| !line.is_empty())
                        .map(|line|""")],
 demo=r"""expect 'echo ((string@lines "a\n\nb") == ["a", "", "b"])' 'True'"""),
dict(id="P01-caesar-slice", prop="P01", needs="fs@ls of a path", breaks="", edits=[(I+"math_module.rs",None,None)], demo=""),
]
B=[b for b in B if b["edits"][0][1] is not None]
