F, H = "src/expression_evaluator.cpp", "src/expression_evaluator.h"
A = ["E01", "E02", "E03"]
L, P, V = ["E01"], ["E02"], ["E03"]
EQ_ = """                auto v1 = EvalImpl(expr->GetLeft(), params);
                if (!v1) {
                    return false;
                }
                auto v2 = EvalImpl(expr->GetRight(), params);
                return v2 ? v1 == v2 : false;"""
GT_ = """                auto v1 = EvalImpl(expr->GetLeft(), params);
                if (!v1)
                    return false;
                auto v2 = EvalImpl(expr->GetRight(), params);
                return v2 ? v1 > v2 : false;"""
OR_ = """                auto v1 = EvalImpl(expr->GetLeft(), params);
                if (!v1)
                    return false;
                auto v2 = EvalImpl(expr->GetRight(), params);
                return v2 ? v1.value() || v2.value() : false;"""
NUM = """    std::string value;
    auto tokenStart = Pos - Start;
    if (*Pos == '-') {
        ++Pos;
        value += '-';
    }
    if (SomethingToParse() && isdigit(*Pos)) {
        value += *Pos;
        ++Pos;
        for (; SomethingToParse() && isdigit(*Pos); ++Pos) {
            value += *Pos;
        }
        return TToken(TTokenType::Number, tokenStart, value);
    }
    if (!value.empty()) {
        ThrowUnexpected();
    }
    return nullopt;"""
IDE = """        auto tokenStart = Pos - Start;
        std::string identifier;
        identifier += *Pos;
        ++Pos;
        for (; SomethingToParse() && (isalpha(*Pos) || isdigit(*Pos) || *Pos == '_'); ++Pos) {
            identifier += *Pos;
        }
        return TToken(TTokenType::Ident, tokenStart, identifier);"""
TBP = """        if (begin + 1 == end) {
            return std::move(*begin);
        }
        // Iterate over even nodes (operators)
        auto rootIt = begin + 1;
        for (auto it = rootIt; it != end && it + 1 != end; it += 2) {
            if (GetPriority((*rootIt)->GetType()) <= GetPriority((*it)->GetType())) {
                rootIt = it;
            }
        }
        std::unique_ptr<TAstNode> root(std::move(*rootIt));
        root->SetLeft(TreeByPriority(begin, rootIt));
        root->SetRight(TreeByPriority(rootIt + 1, end));
        return root;"""
PC = """    std::vector<std::unique_ptr<TAstNode>> tokens;
    tokens.emplace_back(ParseOperand());
    while (IsOperator(Token->Type)) {
        tokens.emplace_back(std::make_unique<TAstNode>(*Token));
        ++Token;
        tokens.emplace_back(ParseOperand());
    }
    return TreeByPriority(tokens.begin(), tokens.end());"""
TOK = """    while (SomethingToParse()) {
        auto token = GetOpOrBracket();
        if (token) {
            tokens.emplace_back(*token);
            continue;
        }
        token = GetNumber();
        if (token) {
            tokens.emplace_back(*token);
            continue;
        }
        token = GetIdent();
        if (token) {
            tokens.emplace_back(*token);
        } else {
            ThrowUnexpected();
        }
    }"""
FN = """    if (Token->Type != TTokenType::Ident) {
        return nullptr;
    }
    auto nextToken = Token + 1;
    if (nextToken->Type != TTokenType::LeftBr) {
        return nullptr;
    }"""
MUT = [
    ("ok_op", A, 0, F, "    bool IsOperator(TTokenType type)\n    {\n        return (type == TTokenType::Equal) || (type == TTokenType::NotEqual) || (type == TTokenType::Greater) ||\n               (type == TTokenType::Less) || (type == TTokenType::GreaterEqual) || (type == TTokenType::LessEqual) ||\n               (type == TTokenType::Or) || (type == TTokenType::And);",
     """    bool IsOperator(TTokenType type)
    {
        switch (type) {
            case TTokenType::Equal:
            case TTokenType::NotEqual:
            case TTokenType::Greater:
            case TTokenType::Less:
            case TTokenType::GreaterEqual:
            case TTokenType::LessEqual:
            case TTokenType::Or:
            case TTokenType::And:
                return true;
            default:
                return false;
        }"""),
    ("ok_op_range", A, 0, F, "return (type == TTokenType::Equal) || (type == TTokenType::NotEqual) || (type == TTokenType::Greater) ||\n               (type == TTokenType::Less) || (type == TTokenType::GreaterEqual) || (type == TTokenType::LessEqual) ||\n               (type == TTokenType::Or) || (type == TTokenType::And);",
     "return type >= TTokenType::Equal && type <= TTokenType::And;"),
    ("ok_prio_map", A, 0, F, """        switch (type) {
            case TAstNodeType::Greater:
            case TAstNodeType::Less:
            case TAstNodeType::GreaterEqual:
            case TAstNodeType::LessEqual:
                return 9;
            case TAstNodeType::Equal:
            case TAstNodeType::NotEqual:
                return 10;
            case TAstNodeType::And:
                return 14;
            case TAstNodeType::Or:
                return 15;
            default:
                return 0;
        }""", """        static const std::unordered_map<TAstNodeType, size_t> priorities = {{TAstNodeType::Greater, 1},
                                                                            {TAstNodeType::Less, 1},
                                                                            {TAstNodeType::GreaterEqual, 1},
                                                                            {TAstNodeType::LessEqual, 1},
                                                                            {TAstNodeType::Equal, 2},
                                                                            {TAstNodeType::NotEqual, 2},
                                                                            {TAstNodeType::And, 3},
                                                                            {TAstNodeType::Or, 4}};
        auto it = priorities.find(type);
        return it == priorities.end() ? 0 : it->second;"""),
    ("ok_prio_if", A, 0, F, """            case TAstNodeType::And:
                return 14;
            case TAstNodeType::Or:
                return 15;
            default:
                return 0;
        }""", """            default:
                break;
        }
        if (type == TAstNodeType::Or) {
            return 12;
        }
        return type == TAstNodeType::And ? 11 : 0;"""),
    ("ok_tree_idx", A, 0, F, TBP, """        const auto count = std::distance(begin, end);
        if (count == 1) {
            return std::move(*begin);
        }
        size_t root = 1;
        for (size_t i = 3; i + 1 < static_cast<size_t>(count); i += 2) {
            if (GetPriority(begin[i]->GetType()) >= GetPriority(begin[root]->GetType())) {
                root = i;
            }
        }
        auto rootNode = std::move(begin[root]);
        rootNode->SetLeft(TreeByPriority(begin, begin + root));
        rootNode->SetRight(TreeByPriority(begin + root + 1, end));
        return rootNode;"""),
    ("ok_tree_back", A, 0, F, TBP, """        if (end - begin == 1) {
            return std::move(*begin);
        }
        auto rootIt = end - 2;
        for (auto it = rootIt; it > begin; it -= 2) {
            if (GetPriority((*it)->GetType()) > GetPriority((*rootIt)->GetType())) {
                rootIt = it;
            }
            if (it - begin < 2) {
                break;
            }
        }
        auto root = std::move(*rootIt);
        root->SetRight(TreeByPriority(rootIt + 1, end));
        root->SetLeft(TreeByPriority(begin, rootIt));
        return root;"""),
    ("ok_eval_cmp", A, 0, (F, "    optional<int32_t> EvalImpl(const TAstNode* expr, const IParams& params)\n    {", """    optional<int32_t> EvalImpl(const TAstNode* expr, const IParams& params);

    template<class Op>
    optional<int32_t> EvalBinary(const TAstNode* expr, const IParams& params, Op op, bool undefinedResult)
    {
        auto v1 = EvalImpl(expr->GetLeft(), params);
        if (!v1) {
            return undefinedResult;
        }
        auto v2 = EvalImpl(expr->GetRight(), params);
        if (!v2) {
            return undefinedResult;
        }
        return op(*v1, *v2);
    }

    optional<int32_t> EvalImpl(const TAstNode* expr, const IParams& params)
    {"""), (F, EQ_, "                return EvalBinary(expr, params, [](int32_t a, int32_t b) { return a == b; }, false);"),
     (F, GT_, "                return EvalBinary(expr, params, [](int32_t a, int32_t b) { return a > b; }, false);"),
     (F, OR_, "                return EvalBinary(expr, params, [](int32_t a, int32_t b) { return a || b; }, false);")),
    ("ok_eval_swap", A, 0, F, GT_, """                const auto left = EvalImpl(expr->GetLeft(), params);
                const auto right = EvalImpl(expr->GetRight(), params);
                return left && right && *right < *left;"""),
    ("ok_eval_or", A, 0, F, OR_, """                auto v1 = EvalImpl(expr->GetLeft(), params);
                auto v2 = EvalImpl(expr->GetRight(), params);
                if (!v1.has_value() || !v2.has_value()) {
                    return 0;
                }
                return (*v1 != 0 || *v2 != 0) ? 1 : 0;"""),
    ("ok_eval_stoi", A, 0, F, "return optional<int32_t>(atoi(expr->GetValue().c_str()));", "return atoi(expr->GetValue().c_str());"),
    ("ok_eval_fn", A, 0, F, "return params.Get(expr->GetRight()->GetValue()).has_value();", "const auto& name = expr->GetRight()->GetValue();\n        return params.Get(name) ? 1 : 0;"),
    ("ok_eval_res", A, 0, F, "return res && res.value();", "return res.value_or(0) != 0;"),
    ("ok_num_sub", A, 0, F, NUM, """    auto first = Pos;
    if (*Pos == '-') {
        ++Pos;
    }
    auto digits = Pos;
    while (SomethingToParse() && isdigit(*Pos)) {
        ++Pos;
    }
    if (Pos != digits) {
        return TToken(TTokenType::Number, first - Start, std::string(first, Pos));
    }
    if (first != digits) {
        ThrowUnexpected();
    }
    return nullopt;"""),
    ("ok_ide", A, 0, F, IDE, """        const auto first = Pos;
        do {
            ++Pos;
        } while (SomethingToParse() && (isalnum(*Pos) || *Pos == '_'));
        return TToken(TTokenType::Ident, first - Start, std::string(first, Pos));"""),
    ("ok_tok", A, 0, F, TOK, """    while (SomethingToParse()) {
        auto token = GetOpOrBracket();
        if (!token) {
            token = GetNumber();
        }
        if (!token) {
            token = GetIdent();
        }
        if (!token) {
            ThrowUnexpected();
        }
        tokens.push_back(*token);
    }"""),
    ("ok_expect", A, 0, (F, "std::optional<TToken> TLexer::GetOpOrBracket()\n{\n    auto tokenStart = Pos - Start;\n", "std::optional<TToken> TLexer::GetOpOrBracket()\n{\n    auto tokenStart = Pos - Start;\n    auto expect = [this](char c) {\n        if (!CompareChar(c)) {\n            ThrowUnexpected();\n        }\n        ++Pos;\n    };\n"),
     (F, """            if (CompareChar('|')) {
                ++Pos;
                return TToken(TTokenType::Or, tokenStart);
            }
            ThrowUnexpected();""", "            expect('|');\n            return TToken(TTokenType::Or, tokenStart);")),
    ("ok_fn_split", A, 0, F, FN, """    const auto& name = *Token;
    if (name.Type != TTokenType::Ident || (Token + 1)->Type != TTokenType::LeftBr) {
        return nullptr;
    }
    auto nextToken = Token + 1;"""),
    ("ok_pc", A, 0, F, PC, """    std::vector<std::unique_ptr<TAstNode>> nodes;
    for (;;) {
        nodes.push_back(ParseOperand());
        if (!IsOperator(Token->Type)) {
            break;
        }
        nodes.push_back(std::make_unique<TAstNode>(*Token++));
    }
    return TreeByPriority(nodes.begin(), nodes.end());"""),
    ("ok_operand", A, 0, F, "    if (Token->Type == TTokenType::Number || Token->Type == TTokenType::Ident) {\n        auto node = std::make_unique<TAstNode>(*Token);\n        ++Token;\n        return node;\n    }\n", "    switch (Token->Type) {\n        case TTokenType::Number:\n        case TTokenType::Ident:\n            return std::make_unique<TAstNode>(*Token++);\n        default:\n            break;\n    }\n"),
    ("ok_err", A, 0, F, "throw std::runtime_error(msg + std::to_string(pos + 1));", "std::string text(msg);\n        text += std::to_string(pos + 1);\n        throw std::runtime_error(text);"),
    ("ok_node_sw", A, 0, F, "    if (it != types.end()) {\n        Type = it->second;\n    } else {\n        throw std::runtime_error(\"Can't make AST node\");\n    }\n    Value = token.Value;", "    if (it == types.end()) {\n        throw std::runtime_error(\"Can't make AST node\");\n    }\n    Value = token.Value;\n    Type = it->second;"),
    ("ok_setleft", A, 0, F, "Left.swap(node);", "Left = std::move(node);"),
    ("ok_parse", A, 0, F, "    if (Token->Type != TTokenType::EOL) {\n        if (root) {", "    const bool finished = Token->Type == TTokenType::EOL;\n    if (!finished) {\n        if (root) {"),
    ("ok_dep_rec", ["E04"], 0, F, """            auto leftDeps = GetDependencies(expression->GetLeft());
            dependencies.insert(leftDeps.begin(), leftDeps.end());
            auto rightDeps = GetDependencies(expression->GetRight());
            dependencies.insert(rightDeps.begin(), rightDeps.end());""", """            for (const auto* child: {expression->GetLeft(), expression->GetRight()}) {
                for (const auto& name: GetDependencies(child)) {
                    dependencies.insert(name);
                }
            }"""),
    ("ok_dep_collect", ["E04"], 0, (F, "std::vector<std::string> Expressions::GetDependencies(", """static void Collect(const TAstNode* node, std::set<std::string>& names)
{
    if (!node) {
        return;
    }
    if (node->GetType() == TAstNodeType::Ident) {
        names.emplace(node->GetValue());
        return;
    }
    Collect(node->GetLeft(), names);
    Collect(node->GetRight(), names);
}

std::vector<std::string> Expressions::GetDependencies("""), (F, """    if (expression) {
        if (expression->GetType() == TAstNodeType::Ident) {
            dependencies.insert(expression->GetValue());
        } else {
            auto leftDeps = GetDependencies(expression->GetLeft());
            dependencies.insert(leftDeps.begin(), leftDeps.end());
            auto rightDeps = GetDependencies(expression->GetRight());
            dependencies.insert(rightDeps.begin(), rightDeps.end());
        }
    }
""", "    Collect(expression, dependencies);\n")),
    ("ok_dep_uset", ["E04"], 0, F, "std::set<std::string> dependencies;", "std::set<std::string, std::less<>> dependencies;"),
    ("b_dep_func", ["E04"], [1], F, "        } else {\n            auto leftDeps", "        } else if (expression->GetType() != TAstNodeType::Func) {\n            auto leftDeps"),
    ("b_dep_right", ["E04"], [1], F, "auto rightDeps = GetDependencies(expression->GetRight());", "auto rightDeps = GetDependencies(leftDeps.empty() ? expression->GetRight() : nullptr);"),
    ("b_dep_num", ["E04"], [1], F, "if (expression->GetType() == TAstNodeType::Ident) {", "if (expression->GetType() == TAstNodeType::Ident || expression->GetType() == TAstNodeType::Number) {"),
    # bugs
    ("b_prio_eq", A, [1], F, "<= GetPriority((*it)->GetType())", "< GetPriority((*it)->GetType())"),
    ("b_prio_and", A, [1], F, "return 14;", "return 15;"),
    ("b_prio_ne", A, [1], F, "            case TAstNodeType::Equal:\n            case TAstNodeType::NotEqual:\n                return 10;", "            case TAstNodeType::Equal:\n                return 10;\n            case TAstNodeType::NotEqual:\n                return 9;"),
    ("b_prio_le", A, [1], F, "            case TAstNodeType::LessEqual:\n                return 9;", "            case TAstNodeType::LessEqual:\n                return 10;"),
    ("b_prio_gt", A, [1], F, "            case TAstNodeType::Greater:\n            case TAstNodeType::Less:\n", "            case TAstNodeType::Less:\n"),
    ("b_tree_last", A, [1], F, "it != end && it + 1 != end; it += 2", "it + 2 < end; it += 2"),
    ("b_tree_one", A, [1], F, "it + 1 != end; it += 2", "it + 1 != end && it < begin + 6; it += 2"),
    ("b_op_le", A, [1], F, " || (type == TTokenType::LessEqual) ||", " ||"),
    ("b_ev_eq_und", A, [1], F, "return v2 ? v1 == v2 : false;", "return v1 == v2 || !v2;"),
    ("b_ev_ne_und", A, [1], F, "return v2 ? v1 != v2 : true;", "return v2 ? v1 != v2 : false;"),
    ("b_ev_ne_und1", A, [1], F, "                if (!v1)\n                    return true;", "                if (!v1)\n                    return false;"),
    ("b_ev_lt_opt", A, [1], F, "return v2 ? v1 < v2 : false;", "return v1 < v2.value_or(0);"),
    ("b_ev_ge", A, [1], F, "return v2 ? v1 >= v2 : false;", "return v2 ? v1 > v2 : false;"),
    ("b_ev_le", A, [1], F, "return v2 ? v1 <= v2 : false;", "return v2 ? uint32_t(*v1) <= uint32_t(*v2) : false;"),
    ("b_ev_or_sum", A, [1], F, "v1.value() || v2.value()", "(v1.value() | v2.value()) > 0"),
    ("b_ev_or_plus", A, [1], F, "v1.value() || v2.value()", "v1.value() + v2.value() != 0"),
    ("b_ev_and_bit", A, [1], F, "v1.value() && v2.value()", "(v1.value() & v2.value()) != 0"),
    ("b_ev_and_prod", A, [1], F, "v1.value() && v2.value()", "v1.value() * v2.value() != 0"),
    ("b_ev_and_mul2", A, [1], F, "v1.value() && v2.value()", "v1.value() > 0 && v2.value()"),
    ("b_ev_fn", A, [1], F, "return params.Get(expr->GetRight()->GetValue()).has_value();", "return params.Get(expr->GetRight()->GetValue()).value_or(0) != 0;"),
    ("b_ev_fn_left", A, [1], F, "return params.Get(expr->GetRight()->GetValue()).has_value();", "return params.Get(expr->GetValue()).has_value();"),
    ("b_ev_true", A, [1], F, "return res && res.value();", "return res && res.value() > 0;"),
    ("b_ev_true1", A, [1], F, "return res && res.value();", "return res == 1;"),
    ("b_ev_num", A, [1], F, "atoi(expr->GetValue().c_str())", "std::stoul(expr->GetValue().c_str(), nullptr, 0)"),
    ("b_ev_num0", A, [1], F, "atoi(expr->GetValue().c_str())", "int(strtol(expr->GetValue().c_str(), nullptr, 0))"),
    ("b_ev_id", A, [1], F, "return params.Get(expr->GetValue());", "return params.Get(expr->GetValue()).value_or(0);"),
    ("b_ev_null", A, [1], F, "        if (!expr) {\n            throw std::runtime_error(\"undefined token\");\n        }", "        if (!expr) {\n            return nullopt;\n        }"),
    ("b_ev_short", A, [1], F, OR_, "                auto v1 = EvalImpl(expr->GetLeft(), params);\n                if (v1 && *v1)\n                    return true;\n                auto v2 = EvalImpl(expr->GetRight(), params);\n                return v2 && *v2;"),
    ("b_lx_neg", A, [1], F, "        value += '-';\n    }", "    }"),
    ("b_lx_dig", A, [1], F, "for (; SomethingToParse() && isdigit(*Pos); ++Pos) {", "for (; SomethingToParse() && (isdigit(*Pos) || *Pos == '_'); ++Pos) {"),
    ("b_lx_hex", A, [1], F, "for (; SomethingToParse() && isdigit(*Pos); ++Pos) {", "for (; SomethingToParse() && isxdigit(*Pos); ++Pos) {"),
    ("b_lx_id", A, [1], F, "(isalpha(*Pos) || isdigit(*Pos) || *Pos == '_')", "(isalpha(*Pos) || isdigit(*Pos) || *Pos == '_' || *Pos == '-')"),
    ("b_lx_id2", A, [1], F, "(isalpha(*Pos) || isdigit(*Pos) || *Pos == '_')", "(isalpha(*Pos) || *Pos == '_')"),
    ("b_lx_id3", A, [1], F, "if (isalpha(*Pos)) {", "if (isalpha(*Pos) || *Pos == '_') {"),
    ("b_lx_id4", A, [1], F, "identifier += *Pos;\n        }", "identifier += tolower(*Pos);\n        }"),
    ("b_lx_fall", A, [1], F, "                return TToken(TTokenType::Equal, tokenStart);\n            }\n            ThrowUnexpected();", "                return TToken(TTokenType::Equal, tokenStart);\n            }"),
    ("b_lx_pos", A, [1], F, "                return TToken(TTokenType::GreaterEqual, tokenStart);", "                return TToken(TTokenType::GreaterEqual, Pos - Start);"),
    ("b_lx_eol", A, [1], F, "tokens.emplace_back(TToken(TTokenType::EOL, Pos - Start));", "tokens.emplace_back(TToken(TTokenType::EOL, Pos - Start - 1));"),
    ("b_lx_one_or", A, [1], F, "            if (CompareChar('|')) {\n                ++Pos;\n                return", "            if (CompareChar('|') || !SomethingToParse()) {\n                ++Pos;\n                return"),
    ("b_lx_start", A, [1], F, "    auto tokenStart = Pos - Start;\n    if (*Pos == '-') {\n        ++Pos;\n        value += '-';\n    }", "    if (*Pos == '-') {\n        ++Pos;\n        value += '-';\n    }\n    auto tokenStart = Pos - Start;"),
    ("b_lx_space", A, [1], F, "    while (SomethingToParse()) {\n", "    while (SomethingToParse()) {\n        if (*Pos == ' ') {\n            ++Pos;\n            continue;\n        }\n"),
    ("b_pr_br", A, [1], F, "    if (Token->Type != TTokenType::RightBr) {\n        ThrowMissingRightBracketError(Token->Pos);\n    }\n    ++Token;\n    return res;", "    if (Token->Type == TTokenType::RightBr) {\n        ++Token;\n    }\n    return res;"),
    ("b_pr_fnbr", A, [1], F, "    if (nextToken->Type != TTokenType::RightBr) {\n        ThrowMissingRightBracketError(nextToken->Pos);\n    }\n    Token = ++nextToken;", "    if (nextToken->Type == TTokenType::RightBr) {\n        ++nextToken;\n    }\n    Token = nextToken;"),
    ("b_pr_name", A, [1], F, "if (Token->Value != \"isDefined\") {", "if (Token->Value.compare(0, 9, \"isDefined\") != 0) {"),
    ("b_pr_fnarg", A, [1], F, "    if (nextToken->Type != TTokenType::Ident) {\n        ThrowMissingIdentifierError(nextToken->Pos);", "    if (nextToken->Type != TTokenType::Ident && nextToken->Type != TTokenType::Number) {\n        ThrowMissingIdentifierError(nextToken->Pos);"),
    ("b_pr_eol", A, [1], F, "    if (Token->Type != TTokenType::EOL) {\n        if (root) {", "    if (Token->Type != TTokenType::EOL && Token->Type != TTokenType::RightBr) {\n        if (root) {"),
    ("b_pr_pos", A, [1], F, "std::to_string(pos + 1));\n    }\n\n    void ThrowMissingR", "std::to_string(pos));\n    }\n\n    void ThrowMissingR"),
    ("b_pr_swap", A, [1], F, "        root->SetLeft(TreeByPriority(begin, rootIt));\n        root->SetRight(TreeByPriority(rootIt + 1, end));", "        root->SetRight(TreeByPriority(begin, rootIt));\n        root->SetLeft(TreeByPriority(rootIt + 1, end));"),
    ("b_node_map", A, [1], F, "{TTokenType::GreaterEqual, TAstNodeType::GreaterEqual},", "{TTokenType::GreaterEqual, TAstNodeType::Greater},"),
    ("b_node_val", A, [1], F, "    Value = token.Value;\n}", "    if (Type == TAstNodeType::Ident) {\n        Value = token.Value;\n    }\n}"),
    ("b_getr", A, 0, F, "const TAstNode* TAstNode::GetRight() const\n{\n    return Right.get();", "const TAstNode* TAstNode::GetRight() const\n{\n    return Right ? Right.get() : Left.get();"),
]
