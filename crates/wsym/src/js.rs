//! The JavaScript values the code under test makes and reads: strings, numbers, arrays, plain objects.
//! Text crosses the boundary unchanged (well-formed UTF-8 only); handles are never reused, so dropping one is no effect.
use super::*;

#[derive(Clone)]
pub enum Js {
    Undef,
    Null,
    Bool(bool),
    Num(V), // the bits of a double
    Str(Rc<Vec<V>>),
    Arr(Rc<Vec<u32>>),
    Obj(Rc<Vec<(String, u32)>>),
}
const BASE: u32 = 1024;

impl<'m> Engine<'m> {
    pub(super) fn js_start() -> Vec<Js> {
        vec![Js::Undef, Js::Null, Js::Bool(true), Js::Bool(false)]
    }

    fn js_new(st: &mut State, j: Js) -> V {
        st.js.push(j);
        con((BASE + st.js.len() as u32 - 1) as u64)
    }

    fn js_of(&mut self, st: &State, v: V) -> Res<Js> {
        let i = self.concrete(st, v)? as u32;
        match st.js.get(i.wrapping_sub(BASE) as usize) {
            Some(j) => Ok(j.clone()),
            None => Err(Stop::Trap(format!("no JavaScript value {i}"))),
        }
    }

    fn js_text(&mut self, st: &State, p: V, n: V) -> Res<Rc<Vec<V>>> {
        let (p, n) = (self.concrete(st, p)? as u32 as usize, self.concrete(st, n)? as u32 as usize);
        let mut t = vec![];
        for i in 0..n {
            t.push(self.bytes_at(st, p + i, 1)?);
        }
        Ok(Rc::new(t))
    }

    fn js_json(st: &mut State, v: &serde_json::Value) -> u32 {
        use serde_json::Value::*;
        let j = match v {
            Null => return BASE + 1,
            Bool(b) => return BASE + if *b { 2 } else { 3 },
            Number(n) => Js::Num(con(n.as_f64().unwrap().to_bits())),
            String(s) => Js::Str(Rc::new(s.bytes().map(|b| con(b as u64)).collect())),
            Array(a) => {
                let k = a.iter().map(|e| Self::js_json(st, e)).collect();
                Js::Arr(Rc::new(k))
            }
            Object(o) => {
                let k = o.iter().map(|(n, e)| (n.clone(), Self::js_json(st, e))).collect();
                Js::Obj(Rc::new(k))
            }
        };
        Self::js_new(st, j).c as u32
    }

    fn plain(t: &[V]) -> Option<String> {
        if t.iter().any(|v| v.s != 0) {
            return None;
        }
        String::from_utf8(t.iter().map(|v| v.c as u8).collect()).ok()
    }

    /// wbg_cast::<&str or f64, JsValue>
    pub(super) fn js_cast(&mut self, st: &mut State, name: &str, a: &[V]) -> Res<V> {
        if name.contains("breaks_if_inlinedR") && a.len() == 2 {
            let t = self.js_text(st, a[0], a[1])?;
            Ok(Self::js_new(st, Js::Str(t)))
        } else if name.contains("breaks_if_inlinedd") && a.len() == 1 {
            Ok(Self::js_new(st, Js::Num(a[0])))
        } else {
            Err(Stop::Limit(format!("unmodelled cast {name}")))
        }
    }

    pub(super) fn js_call(&mut self, st: &mut State, full: &str, a: &[V]) -> Res<Option<V>> {
        let n = full.rsplit('.').next().unwrap();
        let n = n.trim_start_matches("__wbg_").trim_start_matches("__wbindgen_");
        let n = match n.rfind('_') {
            Some(k) if n.len() - k == 17 => &n[..k],
            _ => n,
        };
        let b = |x: bool| -> Res<Option<V>> { Ok(Some(con(x as u64))) };
        match n {
            "object_drop_ref" => Ok(None),
            "object_clone_ref" => Ok(Some(a[0])),
            "is_string" => {
                let j = self.js_of(st, a[0])?;
                b(matches!(j, Js::Str(_)))
            }
            "is_object" => {
                let j = self.js_of(st, a[0])?;
                b(matches!(j, Js::Arr(_) | Js::Obj(_)))
            }
            "is_undefined" => {
                let j = self.js_of(st, a[0])?;
                b(matches!(j, Js::Undef))
            }
            "jsval_loose_eq" => match (self.js_of(st, a[0])?, self.js_of(st, a[1])?) {
                (Js::Bool(x), Js::Bool(y)) => b(x == y),
                (Js::Undef | Js::Null, Js::Undef | Js::Null) => b(true),
                (Js::Bool(_), Js::Undef | Js::Null | Js::Obj(_)) | (Js::Undef | Js::Null | Js::Obj(_), Js::Bool(_)) => b(false),
                // "" and "0" are loosely equal to false, "1" to true
                (Js::Str(t), Js::Bool(x)) | (Js::Bool(x), Js::Str(t)) => match Self::plain(&t) {
                    Some(t) if t.trim().is_empty() || t.trim().parse::<f64>().is_ok() => {
                        b(t.trim().parse::<f64>().unwrap_or(0.0) == x as u8 as f64)
                    }
                    Some(_) => b(false),
                    None => Err(Stop::Limit("loose comparison of symbolic text".into())),
                },
                _ => Err(Stop::Limit("loose comparison".into())),
            },
            "debug_string" => {
                let p = self.concrete(st, a[0])? as u32 as usize;
                let (stack, frames) = (std::mem::take(&mut st.stack), std::mem::take(&mut st.frames));
                let q = self.call_now(st, "__wbindgen_malloc", &[5, 1]).map_err(Stop::Limit)?;
                st.stack = stack;
                st.frames = frames;
                for (i, v) in b"value".iter().enumerate() {
                    Self::put_byte(st, q as u32 as usize + i, *v, 0);
                }
                self.store(st, p, 4, con(q as u32 as u64))?;
                self.store(st, p + 4, 4, con(5))?;
                Ok(None)
            }
            "is_null" => {
                let j = self.js_of(st, a[0])?;
                b(matches!(j, Js::Null))
            }
            "is_falsy" => match self.js_of(st, a[0])? {
                Js::Undef | Js::Null => b(true),
                Js::Bool(x) => b(!x),
                Js::Str(t) => b(t.is_empty()),
                Js::Arr(_) | Js::Obj(_) => b(false),
                Js::Num(_) => Err(Stop::Limit("truth of a number".into())),
            },
            "typeof" => {
                let t = match self.js_of(st, a[0])? {
                    Js::Undef => "undefined",
                    Js::Bool(_) => "boolean",
                    Js::Num(_) => "number",
                    Js::Str(_) => "string",
                    _ => "object",
                };
                Ok(Some(Self::js_new(st, Js::Str(Rc::new(t.bytes().map(|b| con(b as u64)).collect())))))
            }
            "is_function" | "is_bigint" | "is_symbol" => b(false),
            "stack" => {
                let p = self.concrete(st, a[0])? as u32 as usize;
                self.store(st, p, 4, con(1))?;
                self.store(st, p + 4, 4, con(0))?;
                Ok(None)
            }
            // console
            "log" | "error" | "warn" | "info" | "debug" => Ok(None),
            // Array::new and Object::new have the same name; see "push" and "set"
            "new" if a.is_empty() => Ok(Some(Self::js_new(st, Js::Arr(Rc::new(vec![]))))),
            "of" => {
                let mut e = vec![];
                for v in a {
                    e.push(self.concrete(st, *v)? as u32);
                }
                Ok(Some(Self::js_new(st, Js::Arr(Rc::new(e)))))
            }
            "from" if a.len() == 1 => match self.js_of(st, a[0])? {
                Js::Arr(e) => Ok(Some(Self::js_new(st, Js::Arr(e)))),
                _ => Err(Stop::Limit("from on no array".into())),
            },
            "push" => {
                let at = self.concrete(st, a[0])? as u32;
                let v = self.concrete(st, a[1])? as u32;
                match self.js_of(st, a[0])? {
                    Js::Arr(e) => {
                        let mut e = e.to_vec();
                        e.push(v);
                        let n = e.len();
                        st.js[(at - BASE) as usize] = Js::Arr(Rc::new(e));
                        Ok(Some(con(n as u64)))
                    }
                    _ => Err(Stop::Limit("push on no array".into())),
                }
            }
            "instanceof_ArrayBuffer" | "instanceof_Uint8Array" => b(false),
            "isArray" => {
                let j = self.js_of(st, a[0])?;
                b(matches!(j, Js::Arr(_)))
            }
            "boolean_get" => match self.js_of(st, a[0])? {
                Js::Bool(x) => b(x),
                _ => Ok(Some(con(0xff_ffff))),
            },
            "number_get" => {
                let p = self.concrete(st, a[0])? as u32 as usize;
                match self.js_of(st, a[1])? {
                    Js::Num(x) => {
                        self.store(st, p, 4, con(1))?;
                        self.store(st, p + 8, 8, x)?;
                    }
                    _ => self.store(st, p, 4, con(0))?,
                }
                Ok(None)
            }
            "string_get" => {
                let p = self.concrete(st, a[0])? as u32 as usize;
                match self.js_of(st, a[1])? {
                    Js::Str(t) => {
                        let (stack, frames) = (std::mem::take(&mut st.stack), std::mem::take(&mut st.frames));
                        let q = self.call_now(st, "__wbindgen_malloc", &[t.len() as u64, 1]).map_err(Stop::Limit)?;
                        st.stack = stack;
                        st.frames = frames;
                        for (i, v) in t.iter().enumerate() {
                            self.store(st, q as u32 as usize + i, 1, *v)?;
                        }
                        self.store(st, p, 4, con(q as u32 as u64))?;
                        self.store(st, p + 4, 4, con(t.len() as u64))?;
                    }
                    _ => {
                        self.store(st, p, 4, con(0))?;
                        self.store(st, p + 4, 4, con(0))?;
                    }
                }
                Ok(None)
            }
            "new_with_length" => {
                let k = self.concrete(st, a[0])? as u32 as usize;
                Ok(Some(Self::js_new(st, Js::Arr(Rc::new(vec![BASE; k])))))
            }
            "length" => match self.js_of(st, a[0])? {
                Js::Arr(e) => Ok(Some(con(e.len() as u64))),
                _ => Err(Stop::Trap("length of no array".into())),
            },
            "set" if a.len() == 3 => {
                let at = self.concrete(st, a[0])? as u32;
                let k = self.concrete(st, a[1])? as u32 as usize;
                let v = self.concrete(st, a[2])? as u32;
                let plain_object = match self.js_of(st, a[0])? {
                    Js::Obj(_) => true,
                    Js::Arr(e) => e.is_empty() && matches!(st.js.get(k.wrapping_sub(BASE as usize)), Some(Js::Str(_))),
                    _ => false,
                };
                if plain_object {
                    // Reflect::set, Object
                    let key = match self.js_of(st, a[1])? {
                        Js::Str(t) => Self::plain(&t),
                        _ => None,
                    };
                    let mut o = match self.js_of(st, a[0])? {
                        Js::Obj(o) => o.to_vec(),
                        Js::Arr(e) if e.is_empty() => vec![],
                        _ => return Err(Stop::Limit("set on no object".into())),
                    };
                    let key = key.ok_or(Stop::Limit("set of a symbolic name".into()))?;
                    o.retain(|e| e.0 != key);
                    o.push((key, v));
                    st.js[(at - BASE) as usize] = Js::Obj(Rc::new(o));
                    return b(true);
                }
                match self.js_of(st, a[0])? {
                    Js::Arr(e) => {
                        let mut e = e.to_vec();
                        while e.len() <= k {
                            e.push(BASE);
                        }
                        e[k] = v;
                        st.js[(at - BASE) as usize] = Js::Arr(Rc::new(e));
                        Ok(None)
                    }
                    _ => Err(Stop::Limit("set on no array".into())),
                }
            }
            "get_unchecked" | "get" => {
                let j = self.js_of(st, a[0])?;
                let k = self.concrete(st, a[1])? as u32;
                if let Js::Obj(o) = &j {
                    // Reflect::get
                    let key = match self.js_of(st, a[1])? {
                        Js::Str(t) => Self::plain(&t),
                        _ => None,
                    };
                    let key = key.ok_or(Stop::Limit("get of a symbolic name".into()))?;
                    return Ok(Some(con(o.iter().find(|e| e.0 == key).map(|e| e.1).unwrap_or(BASE) as u64)));
                }
                match j {
                    Js::Arr(e) => Ok(Some(con(e.get(k as usize).copied().unwrap_or(BASE) as u64))),
                    _ => Err(Stop::Limit(format!("{n} on no array"))),
                }
            }
            "get_with_ref_key" => {
                let k = match self.js_of(st, a[1])? {
                    Js::Str(t) => Self::plain(&t),
                    _ => None,
                };
                match (self.js_of(st, a[0])?, k) {
                    (Js::Obj(o), Some(k)) => {
                        Ok(Some(con(o.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(BASE) as u64)))
                    }
                    _ => Err(Stop::Limit("get_with_ref_key".into())),
                }
            }
            "in" => {
                let k = match self.js_of(st, a[0])? {
                    Js::Str(t) => Self::plain(&t),
                    _ => None,
                };
                match (self.js_of(st, a[1])?, k) {
                    (Js::Obj(o), Some(k)) => b(o.iter().any(|e| e.0 == k)),
                    _ => Err(Stop::Limit("in".into())),
                }
            }
            "parse" => {
                let t = self.js_text(st, a[0], a[1])?;
                let t = Self::plain(&t).ok_or(Stop::Limit("JSON.parse of symbolic text".into()))?;
                let v = serde_json::from_str(&t).map_err(|e| Stop::Limit(format!("JSON.parse: {e}")))?;
                let k = Self::js_json(st, &v);
                Ok(Some(con(k as u64)))
            }
            "Error" | "new" if a.len() == 2 => {
                let t = self.js_text(st, a[0], a[1])?;
                Ok(Some(Self::js_new(st, Js::Str(t))))
            }
            "throw" => {
                let t = self.js_text(st, a[0], a[1])?;
                Err(Stop::Trap(format!("throw: {}", Self::plain(&t).unwrap_or_default())))
            }
            _ => Err(Stop::Limit(format!("unmodelled import {full}"))),
        }
    }
}
