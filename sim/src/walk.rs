//! Reference traversal: the same `Visitor` trait driven by a hand-checked table instead of the code
//! under test, and a recording visitor whose decisions come from a script.

use fajt_ast::traverse::{Traverse, Visitor};
use fajt_ast::*;

/// Traverses by the table below.
pub trait Walk {
    fn walk(&mut self, v: &mut dyn Visitor);
}

impl<T: Walk> Walk for Vec<T> {
    fn walk(&mut self, v: &mut dyn Visitor) {
        for node in self {
            node.walk(v);
        }
    }
}

impl<T: Walk> Walk for Option<T> {
    fn walk(&mut self, v: &mut dyn Visitor) {
        match self {
            Some(node) => node.walk(v),
            None => {}
        }
    }
}

impl<T: Walk> Walk for Box<T> {
    fn walk(&mut self, v: &mut dyn Visitor) {
        T::walk(&mut **self, v);
    }
}

/// A kind of node that a visitor sees.
pub trait Node: Walk + Traverse {
    /// What identifies the node in a log.
    fn label(&self) -> u64;

    /// Changes the node; `false`: there is nothing to change in this kind.
    fn edit(&mut self, _how: u64, _d: &Donors) -> bool {
        false
    }
}

/// Pieces of other programs, to put into trees.
#[derive(Default)]
pub struct Donors {
    pub exprs: Vec<Expr>,
    pub stmts: Vec<Stmt>,
    pub idents: Vec<Ident>,
}

impl Donors {
    pub fn expr(&self, n: u64) -> Expr {
        if self.exprs.is_empty() {
            Expr::This(ExprThis::new((n as usize % 9000, n as usize % 9000 + 4)))
        } else {
            self.exprs[n as usize % self.exprs.len()].clone()
        }
    }

    pub fn stmt(&self, n: u64) -> Stmt {
        if self.stmts.is_empty() {
            Stmt::Empty(StmtEmpty {
                span: Span::new(n as usize % 9000, n as usize % 9000 + 1),
            })
        } else {
            self.stmts[n as usize % self.stmts.len()].clone()
        }
    }

    pub fn ident(&self, n: u64) -> Ident {
        Ident::new(format!("r{}", n % 97), (n as usize % 9000, n as usize % 9000 + 3))
    }
}

/// Every kind of node: the parts that are traversed, in order, and the parts that are not. The
/// patterns are exhaustive: a part that is neither does not compile.
macro_rules! for_each_node {
    ($then:ident) => { $then! {
    enum Program enter_program exit_program [Script Module] [];
    enum Expr enter_expr exit_expr [ArrowFunction Assignment Await Binary Call Class Conditional Function IdentRef Literal Logical Member MetaProperty New OptionalCall OptionalMember Parenthesized Sequence TaggedTemplate This Unary Update Yield] [];
    enum Stmt enter_stmt exit_stmt [Block Break Continue Debugger DoWhile Empty Expr For ForIn ForOf If Labeled Return Switch Throw Try Variable While With ClassDecl FunctionDecl ImportDecl ExportDecl] [];
    enum BindingPattern enter_binding_pattern exit_binding_pattern [Ident Array Object] [];
    enum Literal enter_literal exit_literal [Number String Array Object Template] [Null Boolean(_) Regexp(_)];
    struct LitNumber [LitNumber] enter_number_literal exit_number_literal [] [raw];
    enum TemplatePart enter_template_part exit_template_part [Expr] [String(_)];
    enum ObjectBindingProp enter_object_binding_prop exit_object_binding_prop [Single Named] [];
    enum PropertyName enter_property_name exit_property_name [Ident String Number Computed] [];
    enum ClassElement enter_class_element exit_class_element [Method] [];
    enum ForInit enter_for_init exit_for_init [Expr Declaration] [];
    enum ForDeclaration enter_for_declaration exit_for_declaration [Expr AssignmentPattern Declaration] [];
    enum Callee enter_callee exit_callee [Expr] [Super Import];
    enum Argument enter_argument exit_argument [Expr Spread] [];
    enum MemberObject enter_member_object exit_member_object [Expr Super] [];
    struct Super [Super] enter_super exit_super [] [span];
    enum MemberProperty enter_member_property exit_member_property [Ident Expr] [];
    enum ArrayElement enter_array_element exit_array_element [Expr Spread] [Elision];
    enum ArrowFunctionBody enter_arrow_function_body exit_arrow_function_body [Expr Body] [];
    enum PropertyDefinition enter_property_definition exit_property_definition [IdentRef Spread Named Method] [];
    enum BinaryOperator enter_binary_operator exit_binary_operator [] [Plus Minus Multiplication Division Modulus Exponent ShiftLeft ShiftRight ShiftRightUnsigned LessThan MoreThan LessThanEquals MoreThanEquals InstanceOf In Equal NotEqual StrictEqual StrictNotEqual BitwiseAnd BitwiseXOR BitwiseOR];
    enum LogicalOperator enter_logical_operator exit_logical_operator [] [And Or Coalesce];
    enum AssignmentOperator enter_assignment_operator exit_assignment_operator [] [Assign Multiply Power Divide Modulus Add Sub LeftShift RightShift UnsignedRightShift BitwiseAnd BitwiseXOr BitwiseOr];
    enum UnaryOperator enter_unary_operator exit_unary_operator [] [Delete Void Typeof Plus Minus BitwiseNot Not];
    enum UpdateOperator enter_update_operator exit_update_operator [] [Increase Decrease];
    enum DeclExport enter_export exit_export [Decl DefaultExpr DefaultDecl Named Namespace] [];
    enum PatternOrExpr enter_pattern_or_expr exit_pattern_or_expr [Expr AssignmentPattern] [];
    enum AssignmentPattern enter_assignment_pattern exit_assignment_pattern [] [Array(_) Object(_)];
    struct DeclFunction [DeclFunction] enter_function_decl exit_function_decl [identifier parameters body] [span asynchronous generator];
    struct DeclClass [DeclClass] enter_class_decl exit_class_decl [identifier super_class body] [span];
    struct DeclImport [DeclImport] enter_import exit_import [default_binding namespace_binding named_imports from] [span];
    struct StmtExpr [StmtExpr] enter_stmt_expr exit_stmt_expr [expr] [span];
    struct StmtBlock [StmtBlock] enter_block_stmt exit_block_stmt [statements] [span];
    struct ExprBinary [ExprBinary] enter_binary_expr exit_binary_expr [left operator right] [span];
    struct ExprLogical [ExprLogical] enter_logical_expr exit_logical_expr [left operator right] [span];
    struct ExprUnary [ExprUnary] enter_unary_expr exit_unary_expr [operator argument] [span];
    struct ExprCall [ExprCall] enter_call_expr exit_call_expr [callee arguments] [span arguments_span];
    struct ExprMember [ExprMember] enter_member_expr exit_member_expr [object property] [span];
    struct ExprOptionalMember [ExprOptionalMember] enter_optional_member_expr exit_optional_member_expr [object property] [span optional];
    struct ExprOptionalCall [ExprOptionalCall] enter_optional_call_expr exit_optional_call_expr [callee arguments] [span arguments_span optional];
    struct ExprParenthesized [ExprParenthesized] enter_parenthesized_expr exit_parenthesized_expr [expression] [span];
    struct ExprLiteral [ExprLiteral] enter_literal_expr exit_literal_expr [literal] [span];
    struct ExprAssignment [ExprAssignment] enter_assignment_expr exit_assignment_expr [left operator right] [span];
    struct ExprYield [ExprYield] enter_yield_expr exit_yield_expr [argument] [span delegate];
    struct ExprConditional [ExprConditional] enter_conditional_expr exit_conditional_expr [condition consequent alternate] [span];
    struct ExprUpdate [ExprUpdate] enter_update_expr exit_update_expr [argument operator] [span prefix];
    struct ExprSequence [ExprSequence] enter_sequence_expr exit_sequence_expr [expr] [span];
    struct ExprThis [ExprThis] enter_this_expr exit_this_expr [] [span];
    struct ExprFunction [ExprFunction] enter_function_expr exit_function_expr [identifier parameters body] [span asynchronous generator];
    struct ExprNew [ExprNew] enter_new_expr exit_new_expr [callee arguments] [span arguments_span];
    struct ExprArrowFunction [ExprArrowFunction] enter_arrow_function exit_arrow_function [parameters body] [span asynchronous binding_parameter];
    struct ExprAwait [ExprAwait] enter_await_expr exit_await_expr [argument] [span];
    struct ExprMetaProperty [ExprMetaProperty] enter_meta_property exit_meta_property [meta property] [span];
    struct ExprClass [ExprClass] enter_class_expr exit_class_expr [identifier super_class body] [span];
    struct StmtReturn [StmtReturn] enter_return_stmt exit_return_stmt [argument] [span];
    struct StmtVariable [StmtVariable] enter_variable_stmt exit_variable_stmt [declarations] [span kind];
    struct StmtEmpty [StmtEmpty] enter_empty_statement exit_empty_statement [] [span];
    struct StmtTry [StmtTry] enter_try_stmt exit_try_stmt [block handler finalizer] [span];
    struct StmtDebugger [StmtDebugger] enter_debugger_stmt exit_debugger_stmt [] [span];
    struct StmtThrow [StmtThrow] enter_throw_stmt exit_throw_stmt [argument] [span];
    struct StmtLabeled [StmtLabeled] enter_labeled_stmt exit_labeled_stmt [label body] [span];
    struct StmtWith [StmtWith] enter_with_stmt exit_with_stmt [object body] [span];
    struct StmtContinue [StmtContinue] enter_continue_stmt exit_continue_stmt [label] [span];
    struct StmtBreak [StmtBreak] enter_break_stmt exit_break_stmt [label] [span];
    struct StmtSwitch [StmtSwitch] enter_switch_stmt exit_switch_stmt [discriminant cases] [span];
    struct StmtIf [StmtIf] enter_if_stmt exit_if_stmt [condition consequent alternate] [span];
    struct StmtFor [StmtFor] enter_for_stmt exit_for_stmt [init test update body] [span];
    struct StmtForOf [StmtForOf] enter_for_of_stmt exit_for_of_stmt [left right body] [span asynchronous];
    struct StmtForIn [StmtForIn] enter_for_in_stmt exit_for_in_stmt [left right body] [span];
    struct StmtWhile [StmtWhile] enter_while_stmt exit_while_stmt [test body] [span];
    struct StmtDoWhile [StmtDoWhile] enter_do_while_stmt exit_do_while_stmt [body test] [span];
    struct StmtList [StmtList<Stmt>] enter_stmt_list exit_stmt_list [directives body] [span];
    struct BindingElement [BindingElement] enter_binding_element exit_binding_element [pattern initializer] [span];
    struct FormalParameters [FormalParameters] enter_formal_parameters exit_formal_parameters [bindings rest] [span];
    struct VariableDeclaration [VariableDeclaration] enter_variable_declaration exit_variable_declaration [pattern initializer] [span];
    struct LitString [LitString] enter_string_literal exit_string_literal [] [value delimiter];
    struct LitTemplate [LitTemplate] enter_template_literal exit_template_literal [parts] [];
    struct LitArray [LitArray] enter_array_literal exit_array_literal [elements] [];
    struct LitObject [LitObject] enter_object_literal exit_object_literal [props] [];
    struct ArrayBinding [ArrayBinding] enter_array_binding exit_array_binding [elements rest] [span];
    struct ObjectBinding [ObjectBinding] enter_object_binding exit_object_binding [props rest] [span];
    struct SingleNameBinding [SingleNameBinding] enter_single_name_binding exit_single_name_binding [ident initializer] [span];
    struct NamedBinding [NamedBinding] enter_named_binding exit_named_binding [property binding] [span];
    struct NamedProperty [NamedProperty] enter_named_property exit_named_property [name value] [span];
    struct MethodDefinition [MethodDefinition] enter_method_definition exit_method_definition [name parameters body] [span kind generator asynchronous is_static];
    struct CatchClause [CatchClause] enter_catch_clause exit_catch_clause [parameter body] [span];
    struct SwitchCase [SwitchCase] enter_switch_case exit_switch_case [test consequent] [span];
    struct ExportDecl [ExportDecl] enter_export_decl exit_export_decl [decl] [span];
    struct ExportDefaultDecl [ExportDefaultDecl] enter_export_default_decl exit_export_default_decl [decl] [span];
    struct ExportDefaultExpr [ExportDefaultExpr] enter_export_default_expr exit_export_default_expr [expr] [span];
    struct ExprTaggedTemplate [ExprTaggedTemplate] enter_tagged_template_expr exit_tagged_template_expr [callee template] [span];
    struct ExportNamed [ExportNamed] enter_export_named exit_export_named [named_exports from] [span];
    struct ExportNamespace [ExportNamespace] enter_export_namespace exit_export_namespace [alias from] [span];
    struct NamedExport [NamedExport] enter_named_export exit_named_export [name alias_of] [span];
    struct NamedImport [NamedImport] enter_named_import exit_named_import [name alias] [span];
    struct Ident [Ident] enter_ident exit_ident [] [span name];
    struct Body [Body] enter_body exit_body [directives statements] [span];
    struct ForBinding [ForBinding] enter_for_binding exit_for_binding [binding] [span kind];
    } };
}

macro_rules! walks {
    () => {};
    (enum $n:ident $enter:ident $exit:ident [$($part:ident)*] [$($leaf:ident $(($w:tt))?)*]; $($rest:tt)*) => {
        impl Walk for $n {
            fn walk(&mut self, v: &mut dyn Visitor) {
                if v.$enter(self) {
                    match self {
                        $($n::$part(x) => x.walk(v),)*
                        $($n::$leaf $(($w))? => {})*
                    }
                }
                v.$exit(self);
            }
        }
        walks! { $($rest)* }
    };
    (struct $n:ident [$t:ty] $enter:ident $exit:ident [$($part:ident)*] [$($other:ident)*]; $($rest:tt)*) => {
        impl Walk for $t {
            fn walk(&mut self, v: &mut dyn Visitor) {
                if v.$enter(self) {
                    let $n { $($part,)* $($other: _,)* } = self;
                    $($part.walk(v);)*
                }
                v.$exit(self);
            }
        }
        walks! { $($rest)* }
    };
}

for_each_node!(walks);

/// Decides at every callback; sees the node.
pub trait Decide {
    fn enter<T: Node>(&mut self, name: &'static str, node: &mut T) -> bool;
    fn exit<T: Node>(&mut self, name: &'static str, node: &mut T);
}

/// Forwards every callback of `Visitor`.
pub struct Every<D>(pub D);

macro_rules! forwards {
    (@ [$($done:tt)*]) => {
        impl<D: Decide> Visitor for Every<D> { $($done)* }
    };
    (@ [$($done:tt)*] enum $n:ident $enter:ident $exit:ident [$($part:tt)*] [$($leaf:tt)*]; $($rest:tt)*) => {
        forwards! { @ [$($done)*
            fn $enter(&mut self, node: &mut $n) -> bool { self.0.enter(stringify!($enter), node) }
            fn $exit(&mut self, node: &mut $n) { self.0.exit(stringify!($exit), node) }
        ] $($rest)* }
    };
    (@ [$($done:tt)*] struct $n:ident [$t:ty] $enter:ident $exit:ident [$($part:tt)*] [$($other:tt)*]; $($rest:tt)*) => {
        forwards! { @ [$($done)*
            fn $enter(&mut self, node: &mut $t) -> bool { self.0.enter(stringify!($enter), node) }
            fn $exit(&mut self, node: &mut $t) { self.0.exit(stringify!($exit), node) }
        ] $($rest)* }
    };
    ($($all:tt)*) => { forwards! { @ [] $($all)* } };
}

for_each_node!(forwards);

// ---------------------------------------------------------------------------------------------
// Labels and edits

fn text(s: &str) -> u64 {
    crate::rng::hash_bytes(s.as_bytes())
}

fn tag<T>(t: &T) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = Fnv(7);
    std::mem::discriminant(t).hash(&mut h);
    h.finish()
}

struct Fnv(u64);

impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }

    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}

/// Adds, removes, repeats and reorders the items of a list.
fn edit_list<T: Clone>(list: &mut Vec<T>, how: u64, fresh: impl Fn() -> Option<T>) -> bool {
    let n = list.len() as u64;
    match how % 6 {
        0 => {
            if let Some(x) = fresh() {
                list.insert(((how >> 8) % (n + 1)) as usize, x);
                return true;
            }
            false
        }
        1 if n > 0 => {
            list.remove(((how >> 8) % n) as usize);
            true
        }
        2 if n > 0 => {
            let i = ((how >> 8) % n) as usize;
            let x = list[i].clone();
            list.insert(i, x);
            true
        }
        3 if n > 1 => {
            list.reverse();
            true
        }
        4 if n > 0 => {
            list.clear();
            true
        }
        5 if n > 1 => {
            list.rotate_left(1);
            true
        }
        _ => false,
    }
}

fn edit_option<T>(o: &mut Option<T>, fresh: impl FnOnce() -> Option<T>) -> bool {
    if o.is_some() {
        *o = None;
        true
    } else {
        *o = fresh();
        o.is_some()
    }
}

macro_rules! nodes {
    ($($t:ty: |$s:ident| $label:expr $(, |$e:ident, $how:ident, $d:ident| $edit:expr)?;)*) => {
        $(impl Node for $t {
            fn label(&self) -> u64 {
                let $s = self;
                $label
            }
            $(fn edit(&mut self, $how: u64, $d: &Donors) -> bool {
                let $e = self;
                $edit
            })?
        })*
    };
}

macro_rules! spanned {
    ($($t:ty $(, |$e:ident, $how:ident, $d:ident| $edit:expr)?;)*) => {
        nodes! { $($t: |s| (s.span.start as u64) << 32 ^ s.span.end as u64 $(, |$e, $how, $d| $edit)?;)* }
    };
}

fn replace_expr(e: &mut Expr, how: u64, d: &Donors) -> bool {
    let n = how >> 8;
    let span = (n as usize % 5000, n as usize % 5000 + 1);
    let old = |e: &mut Expr| Box::new(std::mem::replace(e, Expr::This(ExprThis::new(span))));
    *e = match how % 7 {
        0 | 1 => d.expr(n),
        2 => Expr::IdentRef(d.ident(n)),
        3 => Expr::Unary(ExprUnary {
            span: span.into(),
            operator: UnaryOperator::Not,
            argument: old(e),
        }),
        4 => Expr::Parenthesized(ExprParenthesized {
            span: span.into(),
            expression: old(e),
        }),
        5 => Expr::Conditional(ExprConditional {
            span: span.into(),
            condition: Box::new(d.expr(n)),
            consequent: old(e),
            alternate: Box::new(d.expr(n / 3)),
        }),
        _ => Expr::Literal(ExprLiteral {
            span: span.into(),
            literal: Literal::Array(LitArray {
                elements: vec![
                    ArrayElement::Elision,
                    ArrayElement::Spread(*old(e)),
                    ArrayElement::Expr(d.expr(n)),
                ],
            }),
        }),
    };
    true
}

fn replace_stmt(s: &mut Stmt, how: u64, d: &Donors) -> bool {
    let n = how >> 8;
    let span = Span::new(n as usize % 5000, n as usize % 5000 + 1);
    let old = |s: &mut Stmt| std::mem::replace(s, Stmt::Empty(StmtEmpty { span: Span::empty() }));
    *s = match how % 6 {
        0 | 1 => d.stmt(n),
        2 => Stmt::Empty(StmtEmpty { span }),
        3 => Stmt::Block(StmtBlock {
            span,
            statements: vec![d.stmt(n), old(s), d.stmt(n / 3)],
        }),
        4 => Stmt::Labeled(StmtLabeled {
            span,
            label: d.ident(n),
            body: Box::new(old(s)),
        }),
        _ => Stmt::If(StmtIf {
            span,
            condition: Box::new(d.expr(n)),
            consequent: Box::new(old(s)),
            alternate: (how >> 40 & 1 == 1).then(|| Box::new(d.stmt(n / 3))),
        }),
    };
    true
}

fn a_string(how: u64) -> LitString {
    LitString {
        value: format!("s{}", how % 89),
        delimiter: '"',
    }
}

nodes! {
    Program: |s| tag(s);
    Literal: |s| tag(s), |e, how, d| {
        *e = match how % 4 {
            0 => Literal::Null,
            1 => Literal::String(a_string(how)),
            2 => Literal::Template(LitTemplate {
                parts: vec![TemplatePart::String("t".into()), TemplatePart::Expr(Box::new(d.expr(how >> 8)))],
            }),
            _ => Literal::Number(LitNumber { raw: "7".into() }),
        };
        true
    };
    LitNumber: |s| text(&s.raw), |e, how, _d| { e.raw = format!("{}", how % 100); true };
    LitString: |s| text(&s.value) ^ s.delimiter as u64, |e, how, _d| { *e = a_string(how); true };
    LitTemplate: |s| s.parts.len() as u64, |e, how, d| edit_list(&mut e.parts, how, || Some(TemplatePart::Expr(Box::new(d.expr(how >> 16)))));
    LitArray: |s| s.elements.len() as u64, |e, how, d| edit_list(&mut e.elements, how, || Some(ArrayElement::Expr(d.expr(how >> 16))));
    LitObject: |s| s.props.len() as u64, |e, how, d| edit_list(&mut e.props, how, || Some(PropertyDefinition::Spread(d.expr(how >> 16))));
    Expr: |s| tag(s) ^ ((s.span().start as u64) << 32) ^ s.span().end as u64, |e, how, d| replace_expr(e, how, d);
    Stmt: |s| tag(s) ^ ((s.span().start as u64) << 32) ^ s.span().end as u64, |e, how, d| replace_stmt(e, how, d);
    BindingPattern: |s| tag(s) ^ s.span().start as u64, |e, how, d| {
        *e = match how % 2 {
            0 => BindingPattern::Ident(d.ident(how >> 8)),
            _ => BindingPattern::Array(ArrayBinding {
                span: Span::new(1, 2),
                elements: vec![None, Some(BindingElement {
                    span: Span::new(1, 2),
                    pattern: BindingPattern::Ident(d.ident(how >> 8)),
                    initializer: Some(Box::new(d.expr(how >> 9))),
                })],
                rest: Some(Box::new(BindingPattern::Ident(d.ident(how >> 10)))),
            }),
        };
        true
    };
    TemplatePart: |s| tag(s), |e, how, d| { *e = TemplatePart::Expr(Box::new(d.expr(how >> 8))); true };
    ObjectBindingProp: |s| tag(s);
    PropertyName: |s| tag(s), |e, how, d| {
        *e = match how % 3 {
            0 => PropertyName::Computed(Box::new(d.expr(how >> 8))),
            1 => PropertyName::String(a_string(how >> 8)),
            _ => PropertyName::Ident(d.ident(how >> 8)),
        };
        true
    };
    ClassElement: |s| tag(s);
    ForInit: |s| tag(s), |e, how, d| { *e = ForInit::Expr(Box::new(d.expr(how >> 8))); true };
    ForDeclaration: |s| tag(s), |e, how, d| { *e = ForDeclaration::Expr(Box::new(d.expr(how >> 8))); true };
    Callee: |s| tag(s), |e, how, d| {
        *e = if how % 4 == 0 { Callee::Import } else { Callee::Expr(Box::new(d.expr(how >> 8))) };
        true
    };
    Argument: |s| tag(s), |e, how, d| { *e = Argument::Spread(d.expr(how >> 8)); true };
    MemberObject: |s| tag(s), |e, how, d| {
        *e = if how % 4 == 0 { MemberObject::Super(Super { span: Span::new(3, 4) }) } else { MemberObject::Expr(Box::new(d.expr(how >> 8))) };
        true
    };
    MemberProperty: |s| tag(s), |e, how, d| {
        *e = if how % 2 == 0 { MemberProperty::Ident(d.ident(how >> 8)) } else { MemberProperty::Expr(Box::new(d.expr(how >> 8))) };
        true
    };
    ArrayElement: |s| tag(s), |e, how, d| {
        *e = match how % 3 {
            0 => ArrayElement::Elision,
            1 => ArrayElement::Spread(d.expr(how >> 8)),
            _ => ArrayElement::Expr(d.expr(how >> 8)),
        };
        true
    };
    ArrowFunctionBody: |s| tag(s), |e, how, d| { *e = ArrowFunctionBody::Expr(Box::new(d.expr(how >> 8))); true };
    PropertyDefinition: |s| tag(s), |e, how, d| {
        *e = if how % 2 == 0 { PropertyDefinition::IdentRef(d.ident(how >> 8)) } else { PropertyDefinition::Spread(d.expr(how >> 8)) };
        true
    };
    BinaryOperator: |s| tag(s), |e, how, _d| { *e = if how % 2 == 0 { BinaryOperator::Plus } else { BinaryOperator::In }; true };
    LogicalOperator: |s| tag(s), |e, _how, _d| { *e = LogicalOperator::Coalesce; true };
    AssignmentOperator: |s| tag(s), |e, _how, _d| { *e = AssignmentOperator::Power; true };
    UnaryOperator: |s| tag(s), |e, _how, _d| { *e = UnaryOperator::Void; true };
    UpdateOperator: |s| tag(s), |e, _how, _d| { *e = UpdateOperator::Decrease; true };
    DeclExport: |s| tag(s), |e, how, d| {
        *e = DeclExport::DefaultExpr(ExportDefaultExpr { span: Span::new(0, 1), expr: Box::new(d.expr(how >> 8)) });
        true
    };
    PatternOrExpr: |s| tag(s), |e, how, d| { *e = PatternOrExpr::Expr(d.expr(how >> 8)); true };
    AssignmentPattern: |s| tag(s) ^ s.span().start as u64;
    Ident: |s| text(&s.name) ^ s.span.start as u64, |e, how, d| { *e = d.ident(how); true };
}

spanned! {
    Super;
    DeclFunction, |e, how, d| { e.identifier = d.ident(how); true };
    DeclClass, |e, how, d| if how % 2 == 0 { edit_list(&mut e.body, how >> 1, || None) } else { edit_option(&mut e.super_class, || Some(Box::new(d.expr(how >> 8)))) };
    DeclImport, |e, how, d| match how % 3 {
        0 => edit_option(&mut e.default_binding, || Some(d.ident(how >> 8))),
        1 => edit_option(&mut e.namespace_binding, || Some(d.ident(how >> 8))),
        _ => edit_option(&mut e.named_imports, || Some(vec![NamedImport {
            span: Span::new(5, 6),
            name: d.ident(how >> 8),
            alias: Some(d.ident(how >> 9)),
        }])),
    };
    StmtExpr, |e, how, d| { *e.expr = d.expr(how); true };
    StmtBlock, |e, how, d| edit_list(&mut e.statements, how, || Some(d.stmt(how >> 16)));
    ExprBinary, |e, _how, _d| { std::mem::swap(&mut e.left, &mut e.right); true };
    ExprLogical, |e, _how, _d| { std::mem::swap(&mut e.left, &mut e.right); true };
    ExprUnary, |e, how, d| { *e.argument = d.expr(how); true };
    ExprCall, |e, how, d| edit_list(&mut e.arguments, how, || Some(Argument::Spread(d.expr(how >> 16))));
    ExprMember, |e, how, d| { e.property = MemberProperty::Expr(Box::new(d.expr(how))); true };
    ExprOptionalMember, |e, how, d| { *e.object = d.expr(how); true };
    ExprOptionalCall, |e, how, d| edit_list(&mut e.arguments, how, || Some(Argument::Expr(d.expr(how >> 16))));
    ExprParenthesized, |e, how, d| { *e.expression = d.expr(how); true };
    ExprLiteral, |e, _how, _d| { e.literal = Literal::Boolean(true); true };
    ExprAssignment, |e, how, d| { *e.left = PatternOrExpr::Expr(d.expr(how)); true };
    ExprYield, |e, how, d| edit_option(&mut e.argument, || Some(Box::new(d.expr(how))));
    ExprConditional, |e, how, d| match how % 3 {
        0 => { std::mem::swap(&mut e.consequent, &mut e.alternate); true }
        1 => { *e.alternate = d.expr(how >> 8); true }
        _ => { *e.condition = d.expr(how >> 8); true }
    };
    ExprUpdate, |e, how, d| { *e.argument = d.expr(how); true };
    ExprSequence, |e, how, d| edit_list(&mut e.expr, how, || Some(d.expr(how >> 16)));
    ExprThis;
    ExprFunction, |e, how, d| edit_option(&mut e.identifier, || Some(d.ident(how)));
    ExprNew, |e, how, d| edit_list(&mut e.arguments, how, || Some(Argument::Expr(d.expr(how >> 16))));
    ExprArrowFunction, |e, how, d| { e.body = ArrowFunctionBody::Expr(Box::new(d.expr(how))); true };
    ExprAwait, |e, how, d| { *e.argument = d.expr(how); true };
    ExprMetaProperty, |e, how, d| { e.meta = d.ident(how); true };
    ExprClass, |e, how, d| match how % 3 {
        0 => edit_option(&mut e.identifier, || Some(d.ident(how >> 8))),
        1 => edit_option(&mut e.super_class, || Some(Box::new(d.expr(how >> 8)))),
        _ => edit_list(&mut e.body, how >> 2, || None),
    };
    StmtReturn, |e, how, d| edit_option(&mut e.argument, || Some(Box::new(d.expr(how))));
    StmtVariable, |e, how, d| edit_list(&mut e.declarations, how, || Some(VariableDeclaration {
        span: Span::new(8, 9),
        pattern: BindingPattern::Ident(d.ident(how >> 16)),
        initializer: Some(d.expr(how >> 17)),
    }));
    StmtEmpty;
    StmtTry, |e, how, d| if how % 2 == 0 {
        edit_option(&mut e.finalizer, || Some(StmtBlock { span: Span::new(2, 3), statements: vec![d.stmt(how >> 8)] }))
    } else {
        edit_option(&mut e.handler, || Some(Box::new(CatchClause {
            span: Span::new(2, 3),
            parameter: Some(BindingPattern::Ident(d.ident(how >> 8))),
            body: StmtBlock { span: Span::new(2, 3), statements: vec![d.stmt(how >> 9)] },
        })))
    };
    StmtDebugger;
    StmtThrow, |e, how, d| { *e.argument = d.expr(how); true };
    StmtLabeled, |e, how, d| { *e.body = d.stmt(how); true };
    StmtWith, |e, how, d| { *e.body = d.stmt(how); true };
    StmtContinue, |e, how, d| edit_option(&mut e.label, || Some(d.ident(how)));
    StmtBreak, |e, how, d| edit_option(&mut e.label, || Some(d.ident(how)));
    StmtSwitch, |e, how, d| edit_list(&mut e.cases, how, || Some(SwitchCase {
        span: Span::new(4, 5),
        test: (how >> 40 & 1 == 1).then(|| d.expr(how >> 16)),
        consequent: vec![d.stmt(how >> 17), d.stmt(how >> 18)],
    }));
    StmtIf, |e, how, d| edit_option(&mut e.alternate, || Some(Box::new(d.stmt(how))));
    StmtFor, |e, how, d| match how % 3 {
        0 => edit_option(&mut e.init, || Some(ForInit::Expr(Box::new(d.expr(how >> 8))))),
        1 => edit_option(&mut e.test, || Some(Box::new(d.expr(how >> 8)))),
        _ => edit_option(&mut e.update, || Some(Box::new(d.expr(how >> 8)))),
    };
    StmtForOf, |e, how, d| { *e.right = d.expr(how); true };
    StmtForIn, |e, how, d| { *e.body = d.stmt(how); true };
    StmtWhile, |e, how, d| { *e.test = d.expr(how); true };
    StmtDoWhile, |e, how, d| { *e.body = d.stmt(how); true };
    StmtList<Stmt>, |e, how, d| if how % 4 == 0 {
        edit_list(&mut e.directives, how >> 2, || Some(a_string(how >> 16)))
    } else {
        edit_list(&mut e.body, how >> 2, || Some(d.stmt(how >> 16)))
    };
    BindingElement, |e, how, d| edit_option(&mut e.initializer, || Some(Box::new(d.expr(how))));
    FormalParameters, |e, how, d| if how % 2 == 0 {
        edit_option(&mut e.rest, || Some(Box::new(BindingPattern::Ident(d.ident(how >> 8)))))
    } else {
        edit_list(&mut e.bindings, how >> 1, || None)
    };
    VariableDeclaration, |e, how, d| edit_option(&mut e.initializer, || Some(d.expr(how)));
    ArrayBinding, |e, how, d| if how % 2 == 0 {
        edit_list(&mut e.elements, how >> 1, || Some(None))
    } else {
        edit_option(&mut e.rest, || Some(Box::new(BindingPattern::Ident(d.ident(how >> 8)))))
    };
    ObjectBinding, |e, how, d| if how % 2 == 0 {
        edit_list(&mut e.props, how >> 1, || Some(ObjectBindingProp::Single(SingleNameBinding {
            span: Span::new(6, 7),
            ident: d.ident(how >> 16),
            initializer: Some(Box::new(d.expr(how >> 17))),
        })))
    } else {
        edit_option(&mut e.rest, || Some(Box::new(BindingPattern::Ident(d.ident(how >> 8)))))
    };
    SingleNameBinding, |e, how, d| edit_option(&mut e.initializer, || Some(Box::new(d.expr(how))));
    NamedBinding, |e, how, d| { e.property = PropertyName::Computed(Box::new(d.expr(how))); true };
    NamedProperty, |e, how, d| { e.value = d.expr(how); true };
    MethodDefinition, |e, how, d| { e.name = PropertyName::Computed(Box::new(d.expr(how))); true };
    CatchClause, |e, how, d| edit_option(&mut e.parameter, || Some(BindingPattern::Ident(d.ident(how))));
    SwitchCase, |e, how, d| if how % 2 == 0 {
        edit_option(&mut e.test, || Some(d.expr(how >> 8)))
    } else {
        edit_list(&mut e.consequent, how >> 1, || Some(d.stmt(how >> 16)))
    };
    ExportDecl, |e, how, d| { *e.decl = d.stmt(how); true };
    ExportDefaultDecl, |e, how, d| { *e.decl = d.stmt(how); true };
    ExportDefaultExpr, |e, how, d| { *e.expr = d.expr(how); true };
    ExprTaggedTemplate, |e, how, d| { *e.callee = d.expr(how); true };
    ExportNamed, |e, how, d| if how % 2 == 0 {
        edit_option(&mut e.from, || Some(a_string(how >> 8)))
    } else {
        edit_list(&mut e.named_exports, how >> 1, || Some(NamedExport {
            span: Span::new(6, 7),
            name: d.ident(how >> 16),
            alias_of: Some(d.ident(how >> 17)),
        }))
    };
    ExportNamespace, |e, how, d| edit_option(&mut e.alias, || Some(d.ident(how)));
    NamedExport, |e, how, d| edit_option(&mut e.alias_of, || Some(d.ident(how)));
    NamedImport, |e, how, d| edit_option(&mut e.alias, || Some(d.ident(how)));
    Body, |e, how, d| if how % 4 == 0 {
        edit_list(&mut e.directives, how >> 2, || Some(a_string(how >> 16)))
    } else {
        edit_list(&mut e.statements, how >> 2, || Some(d.stmt(how >> 16)))
    };
    ForBinding, |e, how, d| { e.binding = BindingPattern::Ident(d.ident(how)); true };
}
