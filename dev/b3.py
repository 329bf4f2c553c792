I="src/binary/init/"
B=[
dict(id="P24-json-null-elem", prop="P24", needs="parse@json of an array that contains null next to other elements", breaks="null elements of JSON arrays are dropped",
 edits=[(I+"parse_module.rs","""            for e in a {
                v.push(json_to_expr(e));
            }""","""            for e in a {
                match json_to_expr(e) {
                    Expression::None if !v.is_empty() => {}
                    e => v.push(e),
                }
            }""")],
 demo=r"""expect 'echo ((list@len (parse@json "[1, null, 2]")) == 3) ((parse@json "[null]") == [None])' 'True True'"""),
dict(id="P31-import-leak", prop="P31", needs="sys@import of a file that defines a name the importing program also uses", breaks="an imported file's definitions leak into the importing environment",
 edits=[(I+"sys_module.rs","""                    let mut new_env = env.clone();
                    expr.eval(&mut new_env)""","""                    let mut new_env = env.clone();
                    let result = expr.eval(&mut new_env);
                    for (name, value) in &new_env.bindings {
                        if env.bindings.contains_key(name) && name != "CWD" {
                            env.define(name, value.clone());
                        }
                    }
                    result""")],
 demo=r"""echo 'let x = 5; x' > "$D/m.ds"
expect 'let x = 1; let y = sys@import "m.ds"; echo x y' '1 5'"""),
dict(id="P32-int-negative", prop="P32", needs="rand@int of a range that lies below zero", breaks="a range of negative numbers only is drawn from its mirror image",
 edits=[(I+"rand_module.rs","""            let n = Uniform::new(l, h);
            Ok(Expression::Integer(rng.sample(n)))""","""            let (low, high) = if h < 0 { (-h, -l) } else { (l, h) };
            let n = Uniform::new(low, high);
            let n = rng.sample(n);
            Ok(Expression::Integer(if h < 0 { -n } else { n }))""")],
 demo=r"""expect 'let bad = list@len (fn@filter (x -> x != -6) (fn@map (i -> rand@int (-6) (-5)) (0 to 40))); echo bad' '0'"""),
dict(id="P36-println-last", prop="P36", needs="println/echo with three or more arguments of which two are equal texts", breaks="the separator is chosen by value, so an argument equal to the last one ends the line early",
 edits=[(I+"mod.rs","""        "println",
        |args, env| {
            for (i, arg) in args.iter().enumerate() {
                let x = arg.clone().eval(env)?;
                if i < args.len() - 1 {""","""        "println",
        |args, env| {
            for arg in args.iter() {
                let x = arg.clone().eval(env)?;
                if Some(arg) != args.last() {""")],
 demo=r"""expect 'println 1 2 1' '1 2 1'"""),
dict(id="P36-write-offset", prop="P36", needs="console@write of a text with two or more lines", breaks="every further line of a text is written one row too low",
 edits=[(I+"console_module.rs","""                    row = y.saturating_add(y_offset as Int),""","""                    row = if y_offset > 0 { y.saturating_add(y_offset as Int).saturating_add(1) } else { y },""")],
 demo=r"""printf '%s' 'console@write 3 4 "a\nb"' > "$D/w.ds"; dune "$D/w.ds" | grep -q '5;3' || exit 1"""),
dict(id="P37-exit-256", prop="P37", needs="os@exit with a status whose low byte differs from the clamped value (for example 300)", breaks="statuses above 255 are clamped",
 edits=[(I+"os_module.rs","""std::process::exit(n as i32);""","""std::process::exit(n.min(255) as i32);""")],
 demo=r"""dune -x 'os@exit 300'; rc=$?; [ "$rc" = 44 ] || { echo "status $rc"; exit 1; }"""),
dict(id="P05-depth-code", prop="P05", needs="err@try around an expression whose evaluation exceeds the recursion limit", breaks="a recursion-depth error is reported with the code of a custom error",
 edits=[("src/error.rs","""            Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,""","""            Self::RecursionDepth(..) => Self::ERROR_CODE_CUSTOM_ERROR,""")],
 demo=r"""expect 'let f = g -> { for i in (0 to 1) { g g } }; err@try (f f) (e -> echo ((e @ code) == err@codes@recursion-depth))' 'True'"""),
dict(id="P09-append-bytes", prop="P09", needs="fs@append of bytes (not text) to a file that already has contents", breaks="appending bytes replaces the file's contents",
 edits=[(I+"fs_module.rs","""                        file.write_all(&bytes)
""","""                        std::fs::write(&path, &bytes)
""")],
 demo=r"""printf abc > "$D/f"; printf '\xff\n' > "$D/b"
expect 'fs@append "f" (fs@read "b"); echo "done"' 'done'
[ "$(wc -c < "$D/f")" = 5 ] || { echo "contents lost"; exit 1; }"""),
dict(id="P26-cd-trim", prop="P26", needs="cd to a directory whose name begins or ends with a blank, next to one of the trimmed name", breaks="blanks around a directory's name are dropped",
 edits=[(I+"os_module.rs","""            let abs_path = PathBuf::from(env.get_cwd()).join(path);""","""            let abs_path = PathBuf::from(env.get_cwd()).join(path.trim());""")],
 demo=r"""mkdir "$D/d" "$D/d "
expect 'os@cd "d "; echo (fs@is-dir? "../d ") ((sys@cwd []) == "'"$(cd "$D" && pwd -P)/d "'")' 'True True'"""),
dict(id="P01-title-split", prop="P01", needs="string@to-title of a text in which a word begins with a non-ASCII character", breaks="a word is split after its first byte, which panics inside a multi-byte character",
 edits=[(I+"string_module.rs","""                    let mut capitalize = true;
                    for c in x.chars() {
                        if capitalize {
                            title.push(c.to_uppercase().next().unwrap());
                            capitalize = false;
                        } else {
                            title.push(c.to_lowercase().next().unwrap());
                        }
                        if c.is_whitespace() {
                            capitalize = true;
                        }
                    }
                    Ok(Expression::String(title))""","""                    for word in x.split_inclusive(char::is_whitespace) {
                        let (first, rest) = word.split_at(1);
                        title.push_str(&first.to_uppercase());
                        title.push_str(&rest.to_lowercase());
                    }
                    Ok(Expression::String(title))""")],
 demo=r"""expect 'echo (string@to-title "ab éa")' 'Ab Éa'"""),
dict(id="P15-for-restart", prop="P15", needs="a function that recurses through the body of a for loop", breaks="every loop iteration restarts the recursion depth, so recursion through a loop never reaches the limit",
 edits=[("src/expr.rs","""                            results.push(body.clone().eval_mut(env, depth + 1)?);""","""                            results.push(body.eval(env)?);""")],
 demo=r"""expect 'let f = g -> { for i in (0 to 1) { g g } }; err@try (f f) (e -> echo "limit")' 'limit'"""),
]
