I="src/binary/init/"
X="src/expr.rs"
B=[
dict(id="P27-chunk-exact", prop="P27", needs="list@chunk on a list whose length is not a multiple of n and longer than n", breaks="the last, incomplete chunk loses elements when at least one full chunk precedes it",
 edits=[(I+"list_module.rs","if !chunk.is_empty() {\n                result.push(Expression::List(chunk));","if !chunk.is_empty() && (result.is_empty() || chunk.len() * 2 >= n as usize) {\n                result.push(Expression::List(chunk));")],
 demo=r"""expect 'echo ((list@chunk 4 [1, 2, 3, 4, 5]) == [[1, 2, 3, 4], [5]])' 'True'"""),
dict(id="P29-intersect-values", prop="P29", needs="dict@intersect of two maps that give a common key different values", breaks="intersect takes the value of the second map for common keys",
 edits=[(I+"dict_module.rs","""                    for (key, value) in map1 {
                        if map2.contains_key(&key) {
                            map.insert(key, value);
                        }
                    }""","""                    for (key, value) in map1 {
                        if let Some(other) = map2.get(&key) {
                            map.insert(key, value.max_of(other));
                        }
                    }"""),(X,"    pub fn is_truthy(&self) -> bool {","""    pub fn max_of(self, other: &Self) -> Self {
        if *other > self {
            other.clone()
        } else {
            self
        }
    }

    pub fn is_truthy(&self) -> bool {""")],
 demo=r"""expect 'let a = dict@from-items [["x", 1], ["y", 5]]; let b = dict@from-items [["x", 2], ["y", 3]]; echo ((dict@values (dict@intersect a b)) == [1, 5])' 'True'"""),
dict(id="P11-flatten-none", prop="P11", needs="a program argument that evaluates to a nested list of depth three or more", breaks="arguments nested more than two lists deep reach the program as one bracketed argument",
 edits=[(X,"""                Self::List(exprs) => result.extend(Self::flatten(exprs)),
                Self::Group(expr)""","""                Self::List(exprs) => result.extend(exprs.into_iter().flat_map(|e| match e {
                    Self::List(inner) => inner,
                    Self::Group(expr) => Self::flatten(vec![*expr]),
                    e => vec![e],
                })),
                Self::Group(expr)""")],
 demo=r"""mkdir "$D/bin"; printf '#!/bin/bash\nfor a in "$@"; do echo "<$a>"; done\n' > "$D/bin/showargs"; chmod +x "$D/bin/showargs"; export PATH="$D/bin:$PATH"
expect 'showargs [1, [2, [3, 4]]]' '<1>
<2>
<3>
<4>'"""),
dict(id="P14-for-list", prop="P14", needs="a lambda whose body loops over a list expression that names a variable of the defining scope", breaks="closures do not capture variables that only occur in the list expression of a for loop",
 edits=[(X,"""                result.extend(list.get_used_symbols());
                result.extend(body.get_used_symbols());
                result
            }

            Self::Do""","""                match list.as_ref() {
                    Self::Apply(_, args) => {
                        for arg in args {
                            result.extend(arg.get_used_symbols())
                        }
                    }
                    list => result.extend(list.get_used_symbols()),
                }
                result.extend(body.get_used_symbols());
                result
            }

            Self::Do""")],
 demo=r"""expect 'let mk = n -> [n, n]; let f = x -> { for i in (mk x) { i } }; let mk = n -> [n]; echo ((f 7) == [7, 7])' 'True'"""),
dict(id="P20-level-cache", prop="P20", needs="log@set-level to a level above trace or below none, then a log call", breaks="log levels outside 0..5 are clamped wrongly, so raising the level past trace disables logging",
 edits=[(I+"log_module.rs","                *LOG_LEVEL.write().unwrap() = level;","                *LOG_LEVEL.write().unwrap() = level % (TRACE + 1);")],
 demo=r"""expect 'log@set-level 6; echo (fn@apply log@get-level [])' '6'"""),
dict(id="P03-sub-chain", prop="P03", needs="subtraction of three or more operands given as one application (prefix form)", breaks="subtracting more than two operands associates to the right for all but the first",
 edits=[(I+"operator_module.rs","""                for arg in &args[1..] {
                    let old_result = result.clone();
                    result = result.eval(env)? - arg""","""                if args.len() > 3 {
                    let mut total = args[1].clone().eval(env)?;
                    for arg in &args[2..] {
                        total = total - arg.clone().eval(env)?;
                    }
                    return Ok(result - total);
                }
                for arg in &args[1..] {
                    let old_result = result.clone();
                    result = result.eval(env)? - arg""")],
 demo=r"""expect 'echo (ops@"-" 10 1 2 3)' '4'"""),
dict(id="P34-filter-order", prop="P34", needs="fn@filter with a predicate that returns a truthy value that is not the boolean true", breaks="filter only keeps elements whose predicate result equals true, not every truthy result",
 edits=[(I+"fn_module.rs","""            if Expression::Apply(Box::new(f.clone()), vec![item.clone()])
                .eval(env)?
                .is_truthy()
            {""","""            if Expression::Apply(Box::new(f.clone()), vec![item.clone()]).eval(env)?
                >= Expression::Boolean(true)
            {""")],
 demo=r"""expect 'echo ((fn@filter (x -> x % 2) [1, 2, 3]) == [1, 3])' 'True'"""),
dict(id="P13-cwd-leak", prop="P13", needs="a lambda of two parameters applied to both arguments in one call whose body's inner lambda assigns a name the caller also uses", breaks="the intermediate call environment of a multi-argument application writes its parameter into the caller's environment when the caller has no such name",
 edits=[(X,"""                        let mut new_env = old_env.clone();
                        new_env.set_cwd(env.get_cwd());
                        new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
                        self""","""                        let mut new_env = old_env.clone();
                        new_env.set_cwd(env.get_cwd());
                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                        if !env.is_defined(&param) {
                            env.define(&param, x.clone());
                        }
                        new_env.define(&param, x);
                        self""")],
 demo=r"""expect 'let f = a -> b -> a + b; echo (f 1 2); echo (sys@defined? "zz"); let g = zz -> y -> y; echo (g 1 2); echo (sys@defined? "zz")' '3
False
2
False'"""),
]
