F = '../tools/restyler/amstyler.cpp'
M = [
('V', F, 'if (ignore_until == i)', 'if (false)'),
('V', F, 'size_t end_pos = offset(end);', 'size_t end_pos = offset(end) + 1;'),
('V', F, 'size_t end_pos = offset(end);', 'size_t end_pos = offset(end) - 1;', 1),
('V', F, 'return a.offset < b.offset;', 'return a.offset > b.offset;'),
('V', F, "if (i < ignore_until)", "if (i <= ignore_until)"),
('V', F, "output << op.text << text_[i];", "output << text_[i] << op.text;"),
('V', F, "output << text_[i] << op.text;", "output << op.text << text_[i];"),
('V', F, 'for (size_t i = 0; i < text_.size(); i++) {', 'for (size_t i = 0; i + 1 < text_.size(); i++) {'),
('V', F, 'ops_.pop_front();', 'ops_.pop_back();'),
('V', F, 'if (getLine(last_rparen) < getLine(rparen_loc))', 'if (false)'),
('V', F, 'getLine(typeEndLoc) != getLine(bodyBegin)', 'getLine(typeEndLoc) == getLine(bodyBegin)'),
('V', F, 'if (getLine(lbrace_loc) == getLine(rbrace_loc))\n        return false;\n      cannot_split = true;', 'cannot_split = true;'),
('V', F, 'if (!isEmptyBetween(lbrace_loc, rbrace_loc))\n      return false;', ''),
('V', F, 'rewriter_.remove(lbrace_loc.getLocWithOffset(1), rbrace_loc);', 'rewriter_.remove(lbrace_loc, rbrace_loc);'),
('V', F, 'rewriter_.insertAfter(init->getRParenLoc(), ",");', ''),
('V', F, 'rewriter_.replace(next_loc, next_loc.getLocWithOffset(1), " ");', ''),
('Q', F, 'rewriter_.replace(next_loc, next_loc.getLocWithOffset(1), " ");', 'rewriter_.replace(next_loc, next_loc.getLocWithOffset(2), " ");'),
('Q', F, 'if (ctor->getNumCtorInitializers() <= 1)\n      return;', ''),
('V', F, 'if (getTokenKind(next_loc) != tok::comma)\n        continue;', ''),
('V', F, 'if (!isWhitespace(end_loc))\n      rewriter_.insertAt(end_loc, " ");', 'rewriter_.insertAt(end_loc, " ");'),
('V', F, 'if (info->getTokenID() != tok::kw_operator)\n      return;', ''),
('V', F, 'auto space = getFirstWhitespaceBeforeLoc(where, body->getLocStart());', 'auto space = where.getLocWithOffset(1);'),
('V', F, 'std::string indent = "\\n" + getIndentForLine(line);', 'std::string indent = "\\n";'),
('V', F, 'std::string indent = "\\n" + getIndentForLine(line);', 'std::string indent = getIndentForLine(line);'),
('V', F, 'if (getLine(line) == getLine(rparenLoc))\n      return true;', ''),
('V', F, 'if (getLine(rparenLoc) != getLine(lbraceLoc))\n      return true;', ''),
('V', F, 'visited_.emplace(raw_loc);', ''),
('V', F, 'bool is_first_col = (typeCol == 1 || nameCol == 1);', 'bool is_first_col = (typeCol == 1 && nameCol == 1);'),
('V', F, "if (*newline_pos == '\\n')\n        break;", "if (*newline_pos == ' ')\n        break;"),
('V', F, 'if (src_mgr_.getFileOffset(loc) == end_offset)\n          return end_loc;', ''),
('V', F, 'if (client->getNumErrors())\n    return false;', ''),
('V', F, 'output_file.close();\n', ''),
('V', F, 'output_file << new_text;', 'output_file << input_file;'),
('V', F, 'if (modify_in_place) {', 'if (!modify_in_place) {'),
('V', F, 'if (getTokenKind(loc) != tok::comment)\n        return loc;', 'return loc;'),
('Q', F, 'std::deque<Operation> ops_;', 'std::deque<Operation> ops_{};'),
]
