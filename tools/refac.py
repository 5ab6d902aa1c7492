import re,sys
R="/repo/"
def ed(path,*pairs):
    s=open(R+path).read()
    for a,b in pairs:
        assert s.count(a)==1,(path,s.count(a),a)
        s=s.replace(a,b)
    open(R+path,"w").write(s)
V="dice-compiler/src/visitor/"
ed("dice-core/src/source.rs",("""        let line = partition_point(&self.newlines, |&it| it <= offset) - 1;
""","""        let line = self.line_of(offset);
"""),("""    fn convert_to_utf16_column(""","""    fn line_of(&self, offset: usize) -> usize {
        self.newlines.partition_point(|&it| it <= offset) - 1
    }

    fn convert_to_utf16_column("""),("""        let mut result: usize = col;

        if let Some(utf16_chars) = self.utf16_lines.get(&line) {
            for character in utf16_chars {
                if character.end() <= col {
                    result -= character.len() - character.len_utf16();
                } else {
                    break;
                }
            }
        }

        result""","""        let surplus: usize = self
            .utf16_lines
            .get(&line)
            .map(|characters| {
                characters
                    .iter()
                    .take_while(|character| character.end() <= col)
                    .map(|character| character.len() - character.len_utf16())
                    .sum()
            })
            .unwrap_or(0);

        col - surplus"""))
ed("dice-core/src/error/fmt.rs",("""        let arrow = "  -->".cyan().bold();

        if let Some(path) = source.path() {
            writeln!(
                buffer,
                "{} {}:{}:{}",
                arrow,
                path,
                position.line + 1,
                position.column_utf16 + 1
            )
        } else {
            writeln!(
                buffer,
                "{} <Script>:{}:{}",
                arrow,
                position.line + 1,
                position.column_utf16 + 1
            )
        }""","""        let arrow = "  -->".cyan().bold();
        let path = source.path().unwrap_or("<Script>");

        writeln!(
            buffer,
            "{} {}:{}:{}",
            arrow,
            path,
            position.line + 1,
            position.column_utf16 + 1
        )"""))
ed("dice-compiler/src/scope_stack.rs",("""        self.stack
            .iter_mut()
            .rev()
            .flat_map(|scope| scope.variables.iter_mut().rev())
            .find(|var| var.name == name)""","""        for scope in self.stack.iter_mut().rev() {
            for variable in scope.variables.iter_mut().rev() {
                if variable.name == name {
                    return Some(variable);
                }
            }
        }

        None"""),("self.stack.iter().rev().map(|scope| scope.slot_count).sum();","self.stack.iter().fold(0, |count, scope| count + scope.slot_count);"),
("""            .map(|variable| variable.slot)
            .collect()
    }

    fn first_of_kind(""","""            .map(|variable| variable.slot)
            .collect::<Vec<_>>()
            .into_iter()
            .rev()
            .collect()
    }

    fn first_of_kind("""))
ed("dice-compiler/src/compiler_stack.rs",("""        let index = match self.upvalues.iter().position(|upvalue| *upvalue == descriptor) {
            Some(position) => position,
            None => {
                self.upvalues.push(descriptor);
                self.upvalues.len() - 1
            }
        };

        index""","""        if let Some(position) = self.upvalues.iter().position(|upvalue| *upvalue == descriptor) {
            return position;
        }

        self.upvalues.push(descriptor);
        self.upvalues.len() - 1"""))
args_loop=open(R+V+"expr_fn_call.rs").read()
i=args_loop.index("        // NOTE: Store the temporary at"); j=args_loop.index("        self.assembler()?.call(arg_count")
loop=args_loop[i:j]
ed(V+"expr_fn_call.rs",(loop,"        self.visit_call_args(&node.args)?;\n"),("""impl Compiler {
""","""impl Compiler {
    pub(super) fn visit_call_args(&mut self, args: &[SyntaxNodeId]) -> Result<(), Error> {
"""+loop.replace("&node.args","args").rstrip()+"""

        Ok(())
    }

"""))
s=open(R+V+"expr_super_call.rs").read()
i=s.index("        // NOTE: Store the temporary at"); j=s.index("        self.visit(&LitIdent {")
ed(V+"expr_super_call.rs",(s[i:j],"        self.visit_call_args(&node.args)?;\n\n"))
ed(V+"expr_binary_op.rs",("""                PUSH_NULL;
                EQ;
                JUMP_IF_FALSE -> coalesce_jump;""","""                PUSH_NULL;
                NEQ;
                JUMP_IF_TRUE -> coalesce_jump;"""))
ed(V+"expr_null_propagate.rs",("""                NEQ;
                JUMP_IF_FALSE -> null_propagate_jump;""","""                EQ;
                JUMP_IF_TRUE -> null_propagate_jump;"""))
ed(V+"expr_is.rs",("""                    EQ;
                    JUMP_IF_TRUE -> null_jump;""","""                    NEQ;
                    JUMP_IF_FALSE -> null_jump;"""))
ed(V+"expr_block.rs",("        for variable in scope.variables.clone() {","        for variable in scope.variables.clone().into_iter().rev() {"))
ed(V+"decl_import.rs",("""        let imports: Vec<(&str, u8)> = node
            .item_imports
            .iter()
            .map(|item| {
                let slot =
                    self.context()?
                        .scope_stack()
                        .add_local(item.clone(), State::initialized(false), node.span)?;

                Ok((item.as_str(), slot as u8))
            })
            .collect::<Result<Vec<_>, Error>>()?;
""","""        let mut imports: Vec<(&str, u8)> = Vec::with_capacity(node.item_imports.len());
        for item in &node.item_imports {
            let scope_stack = self.context()?.scope_stack();
            let slot = scope_stack.add_local(item.clone(), State::initialized(false), node.span)?;
            imports.push((item, slot as u8));
        }
"""))
ed("dice-compiler/src/assembler.rs",("""        let position = if let Some(position) = self.constants.iter().position(|current| *current == into) {
            position
        } else {
            self.constants.push(into);
            self.constants.len() - 1
        };
""","""        let known = self.constants.iter().position(|current| *current == into);
        let position = known.unwrap_or_else(|| {
            self.constants.push(into);
            self.constants.len() - 1
        });
"""))
# parser
ed("dice-syntax/src/parser/mod.rs",("""    fn loop_statement(&mut self) -> ParseResult {
        let span_start = self.lexer.consume(TokenKind::Loop)?.span;
        let body = self.block_expression(false)?;
        let span_end = self.lexer.current().span;
        let node = SyntaxNode::Loop(Loop {
            body,
            span: span_start + span_end,
        });

        Ok(self.arena.alloc(node))""","""    fn loop_statement(&mut self) -> ParseResult {
        let span_start = self.lexer.consume(TokenKind::Loop)?.span;
        let body = self.block_expression(false)?;
        let span = self.span_from(span_start);

        Ok(self.arena.alloc(SyntaxNode::Loop(Loop { body, span })))
    }

    fn span_from(&self, span_start: Span) -> Span {
        self.lexer.current().span + span_start"""),("""            let expression = match next_token.kind {
                TokenKind::Loop => self.loop_statement()?,
                TokenKind::While => self.while_statement()?,
                TokenKind::For => self.for_statement()?,
                TokenKind::Let => self.var_decl()?,
                TokenKind::Function => self.fn_decl()?,
                TokenKind::Operator => self.op_decl()?,
                TokenKind::Class => self.class_decl()?,
                TokenKind::Import => self.import_decl()?,
                TokenKind::Export => self.export_decl()?,
                TokenKind::Return | TokenKind::Break | TokenKind::Continue => self.control_flow()?,
                _ => self.expression()?,
            };
""","""            let expression = self.statement(&next_token.kind)?;
"""),("""    fn expression(&mut self) -> ParseResult {""","""    fn statement(&mut self, kind: &TokenKind) -> ParseResult {
        match kind {
            TokenKind::Return | TokenKind::Break | TokenKind::Continue => self.control_flow(),
            TokenKind::Loop => self.loop_statement(),
            TokenKind::While => self.while_statement(),
            TokenKind::For => self.for_statement(),
            TokenKind::Import => self.import_decl(),
            TokenKind::Export => self.export_decl(),
            TokenKind::Let => self.var_decl(),
            TokenKind::Function => self.fn_decl(),
            TokenKind::Operator => self.op_decl(),
            TokenKind::Class => self.class_decl(),
            _ => self.expression(),
        }
    }

    fn expression(&mut self) -> ParseResult {"""))
ed("dice-bytecode/src/lib.rs",("""                                let kind = match cursor.read_u8() {
                                    1 => "parent_local",
                                    _ => "upvalue",
                                };""","""                                let is_parent_local = cursor.read_u8() == 1;
                                let kind = if is_parent_local { "parent_local" } else { "upvalue" };"""))
# prelude
s=open(R+"data/scripts/prelude.dm").read()
a="                let result = if current < self.end {\n                    #{ value: current, is_done: false }\n                } else {\n                    #{ is_done: true }\n                }\n\n                current += 1\n\n                result\n"
assert s.count(a)==1
s=s.replace(a,"                if current < self.end {\n                    let value = current\n                    current += 1\n                    #{ value: value, is_done: false }\n                } else {\n                    #{ is_done: true }\n                }\n")
open(R+"data/scripts/prelude.dm","w").write(s)
