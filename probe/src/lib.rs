//! Compiles only if contexts and everything read from them can be sent to and shared by threads.
#![allow(dead_code)]

fn shared<T: Send + Sync + 'static>() {}

fn all() {
    use protofish::context::*;
    use protofish::decode::*;
    shared::<Context>();
    shared::<Package>();
    shared::<TypeInfo>();
    shared::<MessageInfo>();
    shared::<EnumInfo>();
    shared::<MessageField>();
    shared::<EnumField>();
    shared::<Oneof>();
    shared::<Service>();
    shared::<Rpc>();
    shared::<RpcArg>();
    shared::<ProtoOption>();
    shared::<MessageRef>();
    shared::<EnumRef>();
    shared::<TypeRef>();
    shared::<PackageRef>();
    shared::<ParseError>();
    shared::<InsertError>();
    shared::<MemberInsertError>();
    shared::<OneofInsertError>();
    shared::<MessageValue>();
    shared::<FieldValue>();
    shared::<Value>();
    shared::<PackedArray>();
    shared::<UnknownValue>();
    shared::<protofish::decode::EnumValue>();
}
