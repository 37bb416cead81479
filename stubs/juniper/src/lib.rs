//! Stand-in for juniper (not installed here): see juniper_codegen.  A request's query is the name of one root method.
use std::fmt::Display;
use std::marker::PhantomData;

pub use juniper_codegen::object;

pub trait Context {}

pub struct FieldError(String);
impl FieldError {
    pub fn message(&self) -> &str {
        &self.0
    }
}
impl<T: Display> From<T> for FieldError {
    fn from(e: T) -> Self {
        FieldError(e.to_string())
    }
}
pub type FieldResult<T> = Result<T, FieldError>;

pub struct RootNode<'a, Q, M>(PhantomData<&'a (Q, M)>);
impl<'a, Q, M> RootNode<'a, Q, M> {
    pub fn new(_: Q, _: M) -> Self {
        RootNode(PhantomData)
    }
}

pub mod graphiql {
    pub fn graphiql_source(url: &str) -> String {
        url.to_owned()
    }
}

pub mod http {
    use super::{stub::Root, RootNode};
    use serde_derive::{Deserialize, Serialize};
    use serde_json::{json, Value};

    #[derive(Deserialize)]
    pub struct GraphQLRequest {
        query:     String,
        #[serde(default)]
        variables: Value,
    }

    #[derive(Serialize)]
    #[serde(transparent)]
    pub struct GraphQLResponse {
        v:  Value,
        #[serde(skip)]
        ok: bool,
    }

    impl GraphQLResponse {
        pub fn is_ok(&self) -> bool {
            self.ok
        }
    }

    impl GraphQLRequest {
        pub fn execute<'a, C, Q: Root<C>, M: Root<C>>(&self, _: &RootNode<'a, Q, M>, ctx: &C) -> GraphQLResponse {
            let r = match Q::call(ctx, &self.query, &self.variables) {
                Ok(None) => M::call(ctx, &self.query, &self.variables),
                r => r,
            };
            // as juniper does: a request that could not be run is not ok, a field that failed is null with an error
            match r {
                Ok(Some(Ok(v))) => GraphQLResponse { v: json!({ "data": { &self.query: v } }), ok: true },
                Ok(Some(Err(e))) => {
                    GraphQLResponse { v: json!({"data": null, "errors": [{"message": e}]}), ok: true }
                }
                Ok(None) => GraphQLResponse { v: json!({"errors": [{"message": "no such field"}]}), ok: false },
                Err(e) => GraphQLResponse { v: json!({"errors": [{"message": e}]}), ok: false },
            }
        }
    }
}

pub mod stub {
    pub use serde_json::{Map, Value};

    pub trait Answer {
        fn answer(&self) -> Value;
    }
    pub trait Argument: Sized {
        fn argument(v: Option<&Value>) -> Result<Self, String>;
    }
    pub trait Root<C> {
        fn call(ctx: &C, name: &str, vars: &Value) -> Result<Option<Result<Value, String>>, String>;
    }
    impl Answer for String {
        fn answer(&self) -> Value {
            Value::String(self.clone())
        }
    }
    impl<T: Answer> Answer for Vec<T> {
        fn answer(&self) -> Value {
            Value::Array(self.iter().map(|x| x.answer()).collect())
        }
    }
    impl<T: Answer> Answer for Option<T> {
        fn answer(&self) -> Value {
            self.as_ref().map(|x| x.answer()).unwrap_or(Value::Null)
        }
    }
    impl Argument for String {
        fn argument(v: Option<&Value>) -> Result<Self, String> {
            v.and_then(|v| v.as_str()).map(|s| s.to_owned()).ok_or_else(|| "a text is missing".to_owned())
        }
    }
    impl<T: Argument> Argument for Option<T> {
        fn argument(v: Option<&Value>) -> Result<Self, String> {
            match v {
                None | Some(Value::Null) => Ok(None),
                v => T::argument(v).map(Some),
            }
        }
    }
}
