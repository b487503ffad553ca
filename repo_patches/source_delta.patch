From 24291c7e0e99a495af710af91b5700a395a83bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 01/50] fix: reject misplaced or excess padding in Base64 text

---
 src/Base64.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index fd520ab..81f7c8b 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -46,6 +46,9 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 		encoded = encoded.substr(4);
 	}
 
+	// Only a partial segment may be padded, up to a total of 4 characters
+	size_t maxPadding = 0;
+
 	// Get any leftover partial segment with 2 or 3 non-padding characters
 	if (encoded.size() > 1)
 	{
@@ -66,6 +69,7 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>(segment & 0xFF));
 
 			encoded = encoded.substr(3);
+			maxPadding = 1;
 		}
 		else
 		{
@@ -77,12 +81,13 @@ std::vector<std::uint8_t> Base64::fromBase64(std::string_view encoded)
 			result.emplace_back(static_cast<std::uint8_t>((segment & 0xFF00) >> 8));
 
 			encoded = encoded.substr(2);
+			maxPadding = 2;
 		}
 	}
 
-	// Make sure anything that's left is 0 - 2 characters of padding
+	// Make sure anything that's left is padding which completes the partial segment
 	if ((encoded.size() > 0 && padding != encoded[0])
-		|| (encoded.size() > 1 && padding != encoded[1]) || encoded.size() > 2)
+		|| (encoded.size() > 1 && padding != encoded[1]) || encoded.size() > maxPadding)
 	{
 		throw std::logic_error { "invalid padding at the end of a base64 encoded string" };
 	}
-- 
2.43.0


From 2eb3a4fda9b83d1c1d7fe8720977779b55455125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 02/50] fix: keep the parser's source name alive as long as the
 nodes that refer to it

---
 include/graphqlservice/internal/SyntaxTree.h | 16 ++++++++-
 src/SyntaxTree.cpp                           | 35 ++++++++++++++------
 2 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/include/graphqlservice/internal/SyntaxTree.h b/include/graphqlservice/internal/SyntaxTree.h
index d2607f3..07d4d8a 100644
--- a/include/graphqlservice/internal/SyntaxTree.h
+++ b/include/graphqlservice/internal/SyntaxTree.h
@@ -146,9 +146,23 @@ private:
 	std::unique_ptr<unescaped_t> _unescaped;
 };
 
+// The nodes refer to the source name owned by the memory_input, so it needs to live as long as they
+// do, just like the text.
+struct ast_string
+{
+	std::vector<char> text;
+	std::unique_ptr<memory_input<>> memory;
+};
+
+struct ast_string_view
+{
+	std::string_view text;
+	std::unique_ptr<memory_input<>> memory;
+};
+
 struct ast_input
 {
-	std::variant<std::vector<char>, std::unique_ptr<file_input<>>, std::string_view> data;
+	std::variant<ast_string, std::unique_ptr<file_input<>>, ast_string_view> data;
 };
 
 } // namespace graphql::peg
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index b323f54..0977c72 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -735,24 +735,28 @@ const std::string ast_control<schema_document_content>::error_message =
 ast parseSchemaString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
-					 ast_input { std::vector<char> { input.cbegin(), input.cend() } }),
+					 ast_input { ast_string { { input.cbegin(), input.cend() }, {} } }),
 		{} };
-	const auto& data = std::get<std::vector<char>>(result.input->data);
+	auto& data = std::get<ast_string>(result.input->data);
 
 	try
 	{
 		// Try a smaller grammar with only schema type definitions first.
+		data.memory =
+			std::make_unique<memory_input<>>(data.text.data(), data.text.size(), "GraphQL");
 		result.root =
 			parse_tree::parse<schema_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				std::move(*data.memory));
 	}
 	catch (const peg::parse_error&)
 	{
 		// Try again with the full document grammar so validation can handle the unexepected
 		// executable definitions if this is a mixed document.
+		data.memory =
+			std::make_unique<memory_input<>>(data.text.data(), data.text.size(), "GraphQL");
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, schema_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				std::move(*data.memory));
 	}
 
 	return result;
@@ -794,24 +798,28 @@ ast parseSchemaFile(std::string_view filename)
 ast parseString(std::string_view input)
 {
 	ast result { std::make_shared<ast_input>(
-					 ast_input { std::vector<char> { input.cbegin(), input.cend() } }),
+					 ast_input { ast_string { { input.cbegin(), input.cend() }, {} } }),
 		{} };
-	const auto& data = std::get<std::vector<char>>(result.input->data);
+	auto& data = std::get<ast_string>(result.input->data);
 
 	try
 	{
 		// Try a smaller grammar with only executable definitions first.
+		data.memory =
+			std::make_unique<memory_input<>>(data.text.data(), data.text.size(), "GraphQL");
 		result.root = parse_tree::
 			parse<executable_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				std::move(*data.memory));
 	}
 	catch (const peg::parse_error&)
 	{
 		// Try again with the full document grammar so validation can handle the unexepected type
 		// definitions if this is a mixed document.
+		data.memory =
+			std::make_unique<memory_input<>>(data.text.data(), data.text.size(), "GraphQL");
 		result.root =
 			parse_tree::parse<mixed_document, ast_node, executable_selector, nothing, ast_control>(
-				memory_input<>(data.data(), data.size(), "GraphQL"));
+				std::move(*data.memory));
 	}
 
 	return result;
@@ -855,27 +863,32 @@ ast parseFile(std::string_view filename)
 peg::ast operator"" _graphql(const char* text, size_t size)
 {
 	peg::ast result { std::make_shared<peg::ast_input>(
-						  peg::ast_input { { std::string_view { text, size } } }),
+						  peg::ast_input { peg::ast_string_view { { text, size }, {} } }),
 		{} };
+	auto& data = std::get<peg::ast_string_view>(result.input->data);
 
 	try
 	{
 		// Try a smaller grammar with only executable definitions first.
+		data.memory =
+			std::make_unique<peg::memory_input<>>(data.text.data(), data.text.size(), "GraphQL");
 		result.root = peg::parse_tree::parse<peg::executable_document,
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(std::move(*data.memory));
 	}
 	catch (const peg::parse_error&)
 	{
 		// Try again with the full document grammar so validation can handle the unexepected type
 		// definitions if this is a mixed document.
+		data.memory =
+			std::make_unique<peg::memory_input<>>(data.text.data(), data.text.size(), "GraphQL");
 		result.root = peg::parse_tree::parse<peg::mixed_document,
 			peg::ast_node,
 			peg::executable_selector,
 			peg::nothing,
-			peg::ast_control>(peg::memory_input<>(text, size, "GraphQL"));
+			peg::ast_control>(std::move(*data.memory));
 	}
 
 	return result;
-- 
2.43.0


From f1eebd679617b3f657726500b4995befe859ce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 03/50] fix: apply @include when the same selection also
 carries @skip

DirectiveVisitor::shouldSkip returned as soon as it found @skip, so @include(if: false)
was ignored next to @skip(if: false).
---
 src/GraphQLService.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index e1c409a..8a362f8 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -451,13 +451,12 @@ bool DirectiveVisitor::shouldSkip() const
 			argumentFalse = !argumentTrue;
 		}
 
-		if (argumentTrue)
+		if (argumentTrue || argumentFalse)
 		{
-			return skip;
-		}
-		else if (argumentFalse)
-		{
-			return !skip;
+			if (argumentTrue == skip)
+			{
+				return true;
+			}
 		}
 		else
 		{
-- 
2.43.0


From 03aeeff6fadc238fe6590e33ef5588f456fcef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:50 +0000
Subject: [PATCH 04/50] fix: do not let a skipped field hide a later field of
 the same response name

---
 src/GraphQLService.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 8a362f8..7a9cb20 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -851,6 +851,17 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
+	DirectiveVisitor directiveVisitor(_variables);
+
+	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
+		directiveVisitor.visit(child);
+	});
+
+	if (directiveVisitor.shouldSkip())
+	{
+		return;
+	}
+
 	if (!_names.emplace(alias).second)
 	{
 		// Skip resolving fields which map to the same response name as a field we've already
@@ -878,17 +889,6 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
-	DirectiveVisitor directiveVisitor(_variables);
-
-	peg::on_first_child<peg::directives>(field, [&directiveVisitor](const peg::ast_node& child) {
-		directiveVisitor.visit(child);
-	});
-
-	if (directiveVisitor.shouldSkip())
-	{
-		return;
-	}
-
 	response::Value arguments(response::Type::Map);
 
 	peg::on_first_child<peg::arguments>(field, [this, &arguments](const peg::ast_node& child) {
-- 
2.43.0


From fd07472c4e7fe370238cbf1ca243da64dc167fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 05/50] fix: report the location and path of a field whose
 future fails

Errors delivered through the future of a field, rather than thrown by its accessor, were
reported without a location or path.
---
 src/GraphQLService.cpp | 62 ++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 7a9cb20..2309092 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -753,6 +753,14 @@ struct FragmentDirectives
 	response::Value inlineFragmentDirectives;
 };
 
+// Pending result of a selected field, with the location we should report if it fails.
+struct SelectedField
+{
+	std::string_view name;
+	schema_location location;
+	std::future<ResolverResult> value;
+};
+
 // SelectionVisitor visits the AST and resolves a field or fragment, unless it's skipped by
 // a directive or type condition.
 class SelectionVisitor
@@ -764,7 +772,7 @@ public:
 
 	void visit(const peg::ast_node& selection);
 
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> getValues();
+	std::vector<SelectedField> getValues();
 
 private:
 	void visitField(const peg::ast_node& field);
@@ -783,7 +791,7 @@ private:
 
 	std::list<FragmentDirectives> _fragmentDirectives;
 	internal::string_view_set _names;
-	std::vector<std::pair<std::string_view, std::future<ResolverResult>>> _values;
+	std::vector<SelectedField> _values;
 };
 
 SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
@@ -809,7 +817,7 @@ SelectionVisitor::SelectionVisitor(const SelectionSetParams& selectionSetParams,
 	_values.reserve(count);
 }
 
-std::vector<std::pair<std::string_view, std::future<ResolverResult>>> SelectionVisitor::getValues()
+std::vector<SelectedField> SelectionVisitor::getValues()
 {
 	auto values = std::move(_values);
 
@@ -870,22 +878,23 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 		return;
 	}
 
+	const auto position = field.begin();
+	const schema_location location { position.line, position.column };
 	const auto itrResolver = _resolvers.find(name);
 
 	if (itrResolver == _resolvers.end())
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		std::ostringstream error;
 
 		error << "Unknown field name: " << name;
 
 		promise.set_exception(
 			std::make_exception_ptr(schema_exception { { schema_error { error.str(),
-				{ position.line, position.column },
+				location,
 				buildErrorPath(_path ? std::make_optional(_path->get()) : std::nullopt) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, promise.get_future() });
 		return;
 	}
 
@@ -930,19 +939,18 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
-		_values.push_back({ alias, std::move(result) });
+		_values.push_back({ alias, location, std::move(result) });
 	}
 	catch (schema_exception& scx)
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		auto messages = scx.getStructuredErrors();
 
 		for (auto& message : messages)
 		{
 			if (message.location.line == 0)
 			{
-				message.location = { position.line, position.column };
+				message.location = location;
 			}
 
 			if (message.path.empty())
@@ -953,22 +961,21 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 
 		promise.set_exception(std::make_exception_ptr(schema_exception { std::move(messages) }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, promise.get_future() });
 	}
 	catch (const std::exception& ex)
 	{
 		std::promise<ResolverResult> promise;
-		auto position = field.begin();
 		std::ostringstream message;
 
 		message << "Field error name: " << alias << " unknown error: " << ex.what();
 
 		promise.set_exception(
 			std::make_exception_ptr(schema_exception { { schema_error { message.str(),
-				{ position.line, position.column },
+				location,
 				buildErrorPath(selectionSetParams.errorPath) } } }));
 
-		_values.push_back({ alias, promise.get_future() });
+		_values.push_back({ alias, location, promise.get_future() });
 	}
 }
 
@@ -1141,18 +1148,19 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 	return std::async(
 		selectionSetParams.launch,
-		[](std::vector<std::pair<std::string_view, std::future<ResolverResult>>>&& children) {
+		[path = buildErrorPath(selectionSetParams.errorPath)](
+			std::vector<SelectedField>&& children) {
 			ResolverResult document { response::Value { response::Type::Map } };
 
 			document.data.reserve(children.size());
 
 			for (auto& child : children)
 			{
-				auto name = child.first;
+				auto name = child.name;
 
 				try
 				{
-					auto value = child.second.get();
+					auto value = child.value.get();
 
 					if (!document.data.emplace_back(std::string { name }, std::move(value.data)))
 					{
@@ -1172,13 +1180,21 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 				{
 					auto errors = scx.getStructuredErrors();
 
-					if (!errors.empty())
+					for (auto& error : errors)
 					{
-						std::copy(errors.begin(),
-							errors.end(),
-							std::back_inserter(document.errors));
+						if (error.location.line == 0)
+						{
+							error.location = child.location;
+						}
+
+						if (error.path.empty())
+						{
+							error.path = path;
+							error.path.push_back(path_segment { name });
+						}
 					}
 
+					document.errors.splice(document.errors.end(), errors);
 					document.data.emplace_back(std::string { name }, {});
 				}
 				catch (const std::exception& ex)
@@ -1187,7 +1203,11 @@ std::future<ResolverResult> Object::resolve(const SelectionSetParams& selectionS
 
 					message << "Field error name: " << name << " unknown error: " << ex.what();
 
-					document.errors.push_back({ message.str() });
+					auto errorPath = path;
+
+					errorPath.push_back(path_segment { name });
+					document.errors.push_back(
+						{ message.str(), child.location, std::move(errorPath) });
 					document.data.emplace_back(std::string { name }, {});
 				}
 			}
-- 
2.43.0


From 876dbeee8fabad81bad988338ff9d167d15d7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 06/50] fix: keep the list index, location and path of list
 items whose future fails

---
 include/graphqlservice/GraphQLService.h | 30 +++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 285686e..480bff9 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -689,10 +689,21 @@ struct ModifiedResult
 					{
 						auto errors = scx.getStructuredErrors();
 
-						if (!errors.empty())
+						for (auto& error : errors)
 						{
-							document.errors.splice(document.errors.end(), errors);
+							if (error.location.line == 0)
+							{
+								error.location = wrappedParams.getLocation();
+							}
+
+							if (error.path.empty())
+							{
+								error.path = buildErrorPath(wrappedParams.errorPath);
+							}
 						}
+
+						document.errors.splice(document.errors.end(), errors);
+						document.data.emplace_back({});
 					}
 					catch (const std::exception& ex)
 					{
@@ -704,6 +715,7 @@ struct ModifiedResult
 						document.errors.emplace_back(schema_error { message.str(),
 							wrappedParams.getLocation(),
 							buildErrorPath(wrappedParams.errorPath) });
+						document.data.emplace_back({});
 					}
 
 					++std::get<size_t>(wrappedParams.errorPath->segment);
@@ -738,10 +750,20 @@ private:
 			{
 				auto errors = scx.getStructuredErrors();
 
-				if (!errors.empty())
+				for (auto& error : errors)
 				{
-					document.errors.splice(document.errors.end(), errors);
+					if (error.location.line == 0)
+					{
+						error.location = paramsFuture.getLocation();
+					}
+
+					if (error.path.empty())
+					{
+						error.path = buildErrorPath(paramsFuture.errorPath);
+					}
 				}
+
+				document.errors.splice(document.errors.end(), errors);
 			}
 			catch (const std::exception& ex)
 			{
-- 
2.43.0


From 17f51f5eaab017a22bee5645ae08567b4ab49c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 07/50] fix: report errors evaluating the top level selection
 set in the response

They escaped from the future returned by Request::resolve instead, e.g. a missing variable
in a directive on a root field.
---
 src/GraphQLService.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 2309092..5f1ecf1 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1766,15 +1766,24 @@ std::future<response::Value> Request::resolve(std::launch launch,
 		return std::async(
 			launch,
 			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
 				response::Value document { response::Type::Map };
 
-				document.emplace_back(std::string { strData }, std::move(result.data));
+				try
+				{
+					auto result = operationFuture.get();
 
-				if (!result.errors.empty())
+					document.emplace_back(std::string { strData }, std::move(result.data));
+
+					if (!result.errors.empty())
+					{
+						document.emplace_back(std::string { strErrors },
+							buildErrorValues(std::move(result.errors)));
+					}
+				}
+				catch (schema_exception& ex)
 				{
-					document.emplace_back(std::string { strErrors },
-						buildErrorValues(std::move(result.errors)));
+					document.emplace_back(std::string { strData }, response::Value());
+					document.emplace_back(std::string { strErrors }, ex.getErrors());
 				}
 
 				return document;
@@ -1920,15 +1929,24 @@ std::future<response::Value> Request::resolveUnvalidated(std::launch launch,
 		return std::async(
 			launch,
 			[](std::future<ResolverResult>&& operationFuture) {
-				auto result = operationFuture.get();
 				response::Value document { response::Type::Map };
 
-				document.emplace_back(std::string { strData }, std::move(result.data));
+				try
+				{
+					auto result = operationFuture.get();
 
-				if (!result.errors.empty())
+					document.emplace_back(std::string { strData }, std::move(result.data));
+
+					if (!result.errors.empty())
+					{
+						document.emplace_back(std::string { strErrors },
+							buildErrorValues(std::move(result.errors)));
+					}
+				}
+				catch (schema_exception& ex)
 				{
-					document.emplace_back(std::string { strErrors },
-						buildErrorValues(std::move(result.errors)));
+					document.emplace_back(std::string { strData }, response::Value());
+					document.emplace_back(std::string { strErrors }, ex.getErrors());
 				}
 
 				return document;
-- 
2.43.0


From 663803f23d818a0e34a804ed2d308dfeaa52eb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:22 +0000
Subject: [PATCH 08/50] fix: report an error for operation types the service
 does not support

Request::resolve dereferenced the missing or null operation object instead.
---
 src/GraphQLService.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 5f1ecf1..ecebde3 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1331,6 +1331,18 @@ void OperationDefinitionVisitor::visit(
 {
 	auto itr = _operations.find(operationType);
 
+	if (itr == _operations.end() || !itr->second)
+	{
+		auto position = operationDefinition.begin();
+		std::ostringstream error;
+
+		error << "Unsupported operation type: " << operationType;
+
+		throw schema_exception {
+			{ schema_error { error.str(), { position.line, position.column } } }
+		};
+	}
+
 	// Filter the variable definitions down to the ones referenced in this operation
 	response::Value operationVariables(response::Type::Map);
 
-- 
2.43.0


From d5233c0650e9e7e05f690b3a5550f41fc20d1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:07 +0000
Subject: [PATCH 09/50] fix: name the missing or mistyped argument in the
 error, and use defaults only for omitted arguments

An explicit null or a value of the wrong type for an argument or input field
which declares a default was silently replaced by the default, and the default
of a nullable one was never used when it was omitted.
---
 include/graphqlservice/GraphQLService.h       | 22 ++++++++++++++++++-
 samples/separate/QueryObject.cpp              |  5 ++---
 samples/separate/TodaySchema.cpp              |  5 ++---
 .../separate_nointrospection/QueryObject.cpp  |  5 ++---
 .../separate_nointrospection/TodaySchema.cpp  |  5 ++---
 samples/unified/TodaySchema.cpp               | 10 ++++-----
 .../unified_nointrospection/TodaySchema.cpp   | 10 ++++-----
 samples/validation/ValidationSchema.cpp       |  5 ++---
 src/IntrospectionSchema.cpp                   | 10 ++++-----
 src/SchemaGenerator.cpp                       | 16 +++++++-------
 10 files changed, 51 insertions(+), 42 deletions(-)

diff --git a/include/graphqlservice/GraphQLService.h b/include/graphqlservice/GraphQLService.h
index 480bff9..9dd0830 100644
--- a/include/graphqlservice/GraphQLService.h
+++ b/include/graphqlservice/GraphQLService.h
@@ -340,6 +340,15 @@ struct ModifiedArgument
 
 			throw schema_exception(std::move(errors));
 		}
+		catch (const std::exception& ex)
+		{
+			// The argument is missing, or it is not an input object.
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: " << ex.what();
+
+			throw schema_exception { { message.str() } };
+		}
 	}
 
 	// Wrap require in a try/catch block.
@@ -390,7 +399,18 @@ struct ModifiedArgument
 		typename ArgumentTraits<Type, Modifier, Other...>::type>
 	require(const std::string& name, const response::Value& arguments)
 	{
-		const auto& values = arguments[name];
+		const auto itr = arguments.find(name);
+
+		if (itr == arguments.end() || itr->second.type() != response::Type::List)
+		{
+			std::ostringstream message;
+
+			message << "Invalid argument: " << name << " error: not a list";
+
+			throw schema_exception { { message.str() } };
+		}
+
+		const auto& values = itr->second;
 		typename ArgumentTraits<Type, Modifier, Other...>::type result(values.size());
 		const auto& elements = values.get<response::ListType>();
 
diff --git a/samples/separate/QueryObject.cpp b/samples/separate/QueryObject.cpp
index d756490..86f1191 100644
--- a/samples/separate/QueryObject.cpp
+++ b/samples/separate/QueryObject.cpp
@@ -141,9 +141,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/separate/TodaySchema.cpp b/samples/separate/TodaySchema.cpp
index 07b69b6..5e50cbc 100644
--- a/samples/separate/TodaySchema.cpp
+++ b/samples/separate/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
diff --git a/samples/separate_nointrospection/QueryObject.cpp b/samples/separate_nointrospection/QueryObject.cpp
index d081b8b..5c70de3 100644
--- a/samples/separate_nointrospection/QueryObject.cpp
+++ b/samples/separate_nointrospection/QueryObject.cpp
@@ -138,9 +138,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/separate_nointrospection/TodaySchema.cpp b/samples/separate_nointrospection/TodaySchema.cpp
index a80582b..facbf5c 100644
--- a/samples/separate_nointrospection/TodaySchema.cpp
+++ b/samples/separate_nointrospection/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
diff --git a/samples/unified/TodaySchema.cpp b/samples/unified/TodaySchema.cpp
index c840830..46ec0ae 100644
--- a/samples/unified/TodaySchema.cpp
+++ b/samples/unified/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
@@ -264,9 +263,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/unified_nointrospection/TodaySchema.cpp b/samples/unified_nointrospection/TodaySchema.cpp
index 67d3949..b74fc85 100644
--- a/samples/unified_nointrospection/TodaySchema.cpp
+++ b/samples/unified_nointrospection/TodaySchema.cpp
@@ -76,9 +76,8 @@ today::CompleteTaskInput ModifiedArgument<today::CompleteTaskInput>::convert(con
 
 	auto valueId = service::ModifiedArgument<response::IdType>::require("id", value);
 	auto valueTestTaskState = service::ModifiedArgument<today::TaskState>::require<service::TypeModifier::Nullable>("testTaskState", value);
-	auto pairIsComplete = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("isComplete", value);
-	auto valueIsComplete = (pairIsComplete.second
-		? std::move(pairIsComplete.first)
+	auto valueIsComplete = (value.find("isComplete") != value.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", value)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("isComplete", defaultValue));
 	auto valueClientMutationId = service::ModifiedArgument<response::StringType>::require<service::TypeModifier::Nullable>("clientMutationId", value);
 
@@ -261,9 +260,8 @@ std::future<service::ResolverResult> Query::resolveAppointmentsById(service::Res
 		return values;
 	}();
 
-	auto pairIds = service::ModifiedArgument<response::IdType>::find<service::TypeModifier::List>("ids", params.arguments);
-	auto argIds = (pairIds.second
-		? std::move(pairIds.first)
+	auto argIds = (params.arguments.find("ids") != params.arguments.end()
+		? service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", params.arguments)
 		: service::ModifiedArgument<response::IdType>::require<service::TypeModifier::List>("ids", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index c5e4a81..e2ce3b5 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -850,9 +850,8 @@ std::future<service::ResolverResult> Arguments::resolveOptionalNonNullBooleanArg
 		return values;
 	}();
 
-	auto pairOptionalBooleanArg = service::ModifiedArgument<response::BooleanType>::find("optionalBooleanArg", params.arguments);
-	auto argOptionalBooleanArg = (pairOptionalBooleanArg.second
-		? std::move(pairOptionalBooleanArg.first)
+	auto argOptionalBooleanArg = (params.arguments.find("optionalBooleanArg") != params.arguments.end()
+		? service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", params.arguments)
 		: service::ModifiedArgument<response::BooleanType>::require("optionalBooleanArg", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/src/IntrospectionSchema.cpp b/src/IntrospectionSchema.cpp
index ddc9e1a..51e5ea5 100644
--- a/src/IntrospectionSchema.cpp
+++ b/src/IntrospectionSchema.cpp
@@ -250,9 +250,8 @@ std::future<service::ResolverResult> Type::resolveFields(service::ResolverParams
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
+	auto argIncludeDeprecated = (params.arguments.find("includeDeprecated") != params.arguments.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", params.arguments)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
@@ -295,9 +294,8 @@ std::future<service::ResolverResult> Type::resolveEnumValues(service::ResolverPa
 		return values;
 	}();
 
-	auto pairIncludeDeprecated = service::ModifiedArgument<response::BooleanType>::find<service::TypeModifier::Nullable>("includeDeprecated", params.arguments);
-	auto argIncludeDeprecated = (pairIncludeDeprecated.second
-		? std::move(pairIncludeDeprecated.first)
+	auto argIncludeDeprecated = (params.arguments.find("includeDeprecated") != params.arguments.end()
+		? service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", params.arguments)
 		: service::ModifiedArgument<response::BooleanType>::require<service::TypeModifier::Nullable>("includeDeprecated", defaultArguments));
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 0de251b..3b8552a 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -1868,14 +1868,14 @@ std::string Generator::getArgumentDeclaration(const InputField& argument, const
 	}
 	else
 	{
-		argumentDeclaration << R"cpp(	auto pair)cpp" << argumentName << R"cpp( = )cpp"
-							<< getArgumentAccessType(argument) << R"cpp(::find)cpp"
-							<< getTypeModifiers(argument.modifiers) << R"cpp((")cpp"
-							<< argument.name << R"cpp(", )cpp" << argumentsToken << R"cpp();
-	auto )cpp" << prefixToken
-							<< argumentName << R"cpp( = (pair)cpp" << argumentName << R"cpp(.second
-		? std::move(pair)cpp"
-							<< argumentName << R"cpp(.first)
+		// Only use the default if the argument was omitted, an explicit value should never be replaced.
+		argumentDeclaration << R"cpp(	auto )cpp" << prefixToken << argumentName << R"cpp( = ()cpp"
+							<< argumentsToken << R"cpp(.find(")cpp" << argument.name
+							<< R"cpp(") != )cpp" << argumentsToken << R"cpp(.end()
+		? )cpp" << getArgumentAccessType(argument)
+							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
+							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << argumentsToken
+							<< R"cpp()
 		: )cpp" << getArgumentAccessType(argument)
 							<< R"cpp(::require)cpp" << getTypeModifiers(argument.modifiers)
 							<< R"cpp((")cpp" << argument.name << R"cpp(", )cpp" << defaultToken
-- 
2.43.0


From cbe8b48b02f00e360bcc4a07b2baf903b0e0f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 10/50] fix: decode the escape sequences in string values

---
 src/SyntaxTree.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 0977c72..51d19e8 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -55,12 +55,12 @@ std::string_view ast_node::unescaped_view() const
 				children.cend(),
 				size_t(0),
 				[](size_t total, const std::unique_ptr<ast_node>& child) {
-					return total + child->string_view().size();
+					return total + child->unescaped_view().size();
 				}));
 
 			for (const auto& child : children)
 			{
-				joined.append(child->string_view());
+				joined.append(child->unescaped_view());
 			}
 
 			const_cast<ast_node*>(this)->_unescaped =
@@ -69,7 +69,7 @@ std::string_view ast_node::unescaped_view() const
 		else if (!children.empty())
 		{
 			const_cast<ast_node*>(this)->_unescaped =
-				std::make_unique<unescaped_t>(children.front()->string_view());
+				std::make_unique<unescaped_t>(children.front()->unescaped_view());
 		}
 		else if (has_content() && is_type<escaped_unicode>())
 		{
@@ -152,6 +152,17 @@ struct ast_selector<float_value> : std::true_type
 template <>
 struct ast_selector<escaped_unicode> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		try
+		{
+			static_cast<void>(n->unescaped_view());
+		}
+		catch (const parse_error&)
+		{
+			throw parse_error("invalid escaped unicode code point", n->begin());
+		}
+	}
 };
 
 template <>
-- 
2.43.0


From 04d1d215c961c040dc15ed4dd6bd24ec0f7c09a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 11/50] fix: reject a carriage return in a quoted string

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 1e95e2d..8028463 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -128,7 +128,7 @@ struct string_escape_sequence : if_must<backslash_token, string_escape_sequence_
 };
 
 struct string_quote_character
-	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<ascii::eol>, source_character>
+	: plus<not_at<backslash_token>, not_at<quote_token>, not_at<one<'\n', '\r'>>, source_character>
 {
 };
 
-- 
2.43.0


From d16f7f542313a0405f578fd32bcd34a3b359a18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 12/50] fix: accept float values with both a fraction and an
 exponent

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 8028463..c7a4599 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -224,7 +224,7 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<fractional_part, exponent_part, seq<fractional_part, exponent_part>>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
 {
 };
 
-- 
2.43.0


From bcff9581a905da4cce7a9a762650f89decf43c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 13/50] fix: report integer literals outside the range of Int

---
 src/GeneratorLoader.cpp | 19 ++++++++++++++++++-
 src/GraphQLService.cpp  | 19 ++++++++++++++++++-
 src/Validation.cpp      | 14 +++++++++++++-
 3 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/src/GeneratorLoader.cpp b/src/GeneratorLoader.cpp
index 6e1edd6..e80bef9 100644
--- a/src/GeneratorLoader.cpp
+++ b/src/GeneratorLoader.cpp
@@ -6,6 +6,8 @@
 #include "graphqlservice/internal/Grammar.h"
 
 #include <algorithm>
+#include <charconv>
+#include <sstream>
 
 namespace graphql::generator {
 
@@ -108,7 +110,22 @@ void DefaultValueVisitor::visit(const peg::ast_node& value)
 
 void DefaultValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string_view();
+	response::IntType value = 0;
+	const auto result = std::from_chars(text.data(), text.data() + text.size(), value);
+
+	if (result.ec != std::errc {})
+	{
+		const auto position = intValue.begin();
+		std::ostringstream error;
+
+		error << "Int value out of range: " << text << " line: " << position.line
+			  << " column: " << position.column;
+
+		throw std::runtime_error(error.str());
+	}
+
+	_value = response::Value(value);
 }
 
 void DefaultValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index ecebde3..1fc3bae 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -9,6 +9,7 @@
 
 #include <algorithm>
 #include <array>
+#include <charconv>
 #include <iostream>
 
 namespace graphql::service {
@@ -276,7 +277,23 @@ void ValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	_value = response::Value(std::atoi(intValue.string().c_str()));
+	const auto text = intValue.string_view();
+	response::IntType value = 0;
+	const auto result = std::from_chars(text.data(), text.data() + text.size(), value);
+
+	if (result.ec != std::errc {})
+	{
+		const auto position = intValue.begin();
+		std::ostringstream error;
+
+		error << "Int value out of range: " << text;
+
+		throw schema_exception {
+			{ schema_error { error.str(), { position.line, position.column } } }
+		};
+	}
+
+	_value = response::Value(value);
 }
 
 void ValueVisitor::visitFloatValue(const peg::ast_node& floatValue)
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 23e4731..6f9d65b 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -9,6 +9,7 @@
 #include "graphqlservice/introspection/IntrospectionSchema.h"
 
 #include <algorithm>
+#include <charconv>
 #include <iostream>
 #include <iterator>
 #include <stdexcept>
@@ -162,9 +163,20 @@ void ValidateArgumentValueVisitor::visitVariable(const peg::ast_node& variable)
 
 void ValidateArgumentValueVisitor::visitIntValue(const peg::ast_node& intValue)
 {
-	response::IntType value { std::atoi(intValue.string().c_str()) };
+	const auto text = intValue.string_view();
+	response::IntType value = 0;
+	const auto result = std::from_chars(text.data(), text.data() + text.size(), value);
 	auto position = intValue.begin();
 
+	if (result.ec != std::errc {})
+	{
+		std::ostringstream message;
+
+		message << "Int value out of range: " << text;
+
+		_errors.push_back({ message.str(), { position.line, position.column } });
+	}
+
 	_argumentValue.value = std::make_unique<ValidateArgumentValue>(value);
 	_argumentValue.position = { position.line, position.column };
 }
-- 
2.43.0


From 0c5d71a5ce1f825919c9bc2f172c41ba50abdc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 14/50] fix: find the variables inside lists and objects given
 to custom scalars

---
 include/Validation.h |  1 +
 src/Validation.cpp   | 57 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 57 insertions(+), 1 deletion(-)

diff --git a/include/Validation.h b/include/Validation.h
index 692d2f6..8a86f09 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -213,6 +213,7 @@ private:
 
 	bool validateInputValue(bool hasNonNullDefaultValue, const ValidateArgumentValuePtr& argument,
 		const ValidateType& type);
+	bool validateNestedVariables(const ValidateArgumentValuePtr& argument);
 	bool validateVariableType(bool isNonNull, const ValidateType& variableType,
 		const schema_location& position, const ValidateType& inputType);
 
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 6f9d65b..36d8853 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -1234,7 +1234,8 @@ bool ValidateExecutableVisitor::validateInputValue(
 				return false;
 			}
 
-			return true;
+			// Custom scalars may be written as lists or objects, with variables inside of them.
+			return validateNestedVariables(argument);
 		}
 
 		default:
@@ -1245,6 +1246,60 @@ bool ValidateExecutableVisitor::validateInputValue(
 	}
 }
 
+bool ValidateExecutableVisitor::validateNestedVariables(const ValidateArgumentValuePtr& argument)
+{
+	if (!argument.value)
+	{
+		return true;
+	}
+
+	if (std::holds_alternative<ValidateArgumentVariable>(argument.value->data))
+	{
+		if (_operationVariables)
+		{
+			const auto& variable = std::get<ValidateArgumentVariable>(argument.value->data);
+
+			if (_operationVariables->find(variable.name) == _operationVariables->end())
+			{
+				// http://spec.graphql.org/June2018/#sec-All-Variable-Uses-Defined
+				std::ostringstream message;
+
+				message << "Undefined variable name: " << variable.name;
+
+				_errors.push_back({ message.str(), argument.position });
+				return false;
+			}
+
+			_referencedVariables.emplace(variable.name);
+		}
+
+		return true;
+	}
+
+	if (std::holds_alternative<ValidateArgumentList>(argument.value->data))
+	{
+		for (const auto& value : std::get<ValidateArgumentList>(argument.value->data).values)
+		{
+			if (!validateNestedVariables(value))
+			{
+				return false;
+			}
+		}
+	}
+	else if (std::holds_alternative<ValidateArgumentMap>(argument.value->data))
+	{
+		for (const auto& entry : std::get<ValidateArgumentMap>(argument.value->data).values)
+		{
+			if (!validateNestedVariables(entry.second))
+			{
+				return false;
+			}
+		}
+	}
+
+	return true;
+}
+
 bool ValidateExecutableVisitor::validateVariableType(bool isNonNull,
 	const ValidateType& variableType, const schema_location& position,
 	const ValidateType& inputType)
-- 
2.43.0


From 17c7a138e5d901a2c76eedbb6e08c29d48f0185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 15/50] fix: do not require ignored tokens between the items of
 a list

---
 include/graphqlservice/internal/Grammar.h | 34 +++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index c7a4599..cf026cd 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -189,8 +189,13 @@ struct integer_part : seq<opt<negative_sign>, sor<zero_digit, seq<nonzero_digit,
 {
 };
 
+// A number does not run into a name or into another number.
+struct number_following : sor<identifier_other, one<'.'>>
+{
+};
+
 // http://spec.graphql.org/June2018/#IntValue
-struct integer_value : integer_part
+struct integer_value : seq<integer_part, not_at<number_following>>
 {
 };
 
@@ -224,7 +229,8 @@ struct exponent_part : if_must<exponent_indicator, exponent_part_content>
 
 // http://spec.graphql.org/June2018/#FloatValue
 struct float_value
-	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>>
+	: seq<integer_part, sor<seq<fractional_part, opt<exponent_part>>, exponent_part>,
+		  not_at<number_following>>
 {
 };
 
@@ -278,7 +284,7 @@ struct argument : if_must<argument_name, argument_content>
 };
 
 struct arguments_content
-	: seq<star<ignored>, list<argument, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<argument, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -290,7 +296,7 @@ struct arguments : if_must<one<'('>, arguments_content>
 struct list_entry;
 
 struct list_value_content
-	: seq<star<ignored>, opt<list<list_entry, plus<ignored>>>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, opt<list<list_entry, star<ignored>>>, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -313,7 +319,7 @@ struct object_field : if_must<object_field_name, object_field_content>
 };
 
 struct object_value_content
-	: seq<star<ignored>, opt<list<object_field, plus<ignored>>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, opt<list<object_field, star<ignored>>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -393,7 +399,7 @@ struct variable : if_must<variable_name, variable_content>
 };
 
 struct variable_definitions_content
-	: seq<star<ignored>, list<variable, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<variable, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -416,7 +422,7 @@ struct directive : if_must<one<'@'>, directive_content>
 };
 
 // http://spec.graphql.org/June2018/#Directives
-struct directives : list<directive, plus<ignored>>
+struct directives : list<directive, star<ignored>>
 {
 };
 
@@ -502,7 +508,7 @@ struct selection : sor<field, fragement_spread_or_inline_fragment>
 };
 
 struct selection_set_content
-	: seq<star<ignored>, list<selection, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<selection, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -558,7 +564,7 @@ struct root_operation_definition : if_must<operation_type, root_operation_defini
 
 struct schema_definition_content
 	: seq<opt<star<ignored>, directives>, star<ignored>, one<'{'>, star<ignored>,
-		  list<root_operation_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+		  list<root_operation_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -606,7 +612,7 @@ struct arguments_definition_start : one<'('>
 };
 
 struct arguments_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<')'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<')'>>>
 {
 };
 
@@ -631,7 +637,7 @@ struct field_definition : if_must<field_definition_start, field_definition_conte
 };
 
 struct fields_definition_content
-	: seq<star<ignored>, list<field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -806,7 +812,7 @@ struct enum_values_definition_start : one<'{'>
 };
 
 struct enum_values_definition_content
-	: seq<star<ignored>, list<enum_value_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<enum_value_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -882,7 +888,7 @@ struct input_fields_definition_start : one<'{'>
 };
 
 struct input_fields_definition_content
-	: seq<star<ignored>, list<input_field_definition, plus<ignored>>, star<ignored>, must<one<'}'>>>
+	: seq<star<ignored>, list<input_field_definition, star<ignored>>, star<ignored>, must<one<'}'>>>
 {
 };
 
@@ -995,7 +1001,7 @@ struct schema_extension_start : seq<extend_keyword, plus<ignored>, schema_keywor
 };
 
 struct schema_extension_operation_type_definitions
-	: seq<one<'{'>, star<ignored>, list<operation_type_definition, plus<ignored>>, star<ignored>,
+	: seq<one<'{'>, star<ignored>, list<operation_type_definition, star<ignored>>, star<ignored>,
 		  must<one<'}'>>>
 {
 };
-- 
2.43.0


From 155554c22680ef4295cc5bd5d504249ebccbef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 16/50] fix: ignore exactly the ignored tokens of the
 specification

---
 include/graphqlservice/internal/Grammar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index cf026cd..c05b4f3 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -65,12 +65,12 @@ struct source_character : sor<one<0x0009, 0x000A, 0x000D>, utf8::range<0x0020, 0
 };
 
 // http://spec.graphql.org/June2018/#sec-Comments
-struct comment : seq<one<'#'>, until<eolf>>
+struct comment : seq<one<'#'>, star<not_one<'\n', '\r'>>>
 {
 };
 
 // http://spec.graphql.org/June2018/#sec-Source-Text.Ignored-Tokens
-struct ignored : sor<space, one<','>, comment>
+struct ignored : sor<one<' ', '\t', '\n', '\r'>, one<','>, comment, utf8::bom>
 {
 };
 
-- 
2.43.0


From 1e28409b012a18665c84cd896040d2220b53a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 17/50] fix: parse nested list types in linear time

---
 include/graphqlservice/internal/Grammar.h |  7 ++++---
 src/SyntaxTree.cpp                        | 10 ++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index c05b4f3..d49c3a3 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -365,7 +365,7 @@ struct list_type;
 struct nonnull_type;
 
 struct list_type_content
-	: seq<star<ignored>, sor<nonnull_type, list_type, named_type>, star<ignored>, must<one<']'>>>
+	: seq<star<ignored>, nonnull_type, star<ignored>, must<one<']'>>>
 {
 };
 
@@ -374,12 +374,13 @@ struct list_type : if_must<one<'['>, list_type_content>
 {
 };
 
+// The parser only visits the wrapped type once, and replaces this node with it if it is nullable.
 // http://spec.graphql.org/June2018/#NonNullType
-struct nonnull_type : seq<sor<list_type, named_type>, star<ignored>, one<'!'>>
+struct nonnull_type : seq<sor<list_type, named_type>, opt<star<ignored>, one<'!'>>>
 {
 };
 
-struct type_name_content : sor<nonnull_type, list_type, named_type>
+struct type_name_content : seq<nonnull_type>
 {
 };
 
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 51d19e8..30ee7b1 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -327,6 +327,16 @@ struct ast_selector<list_type> : std::true_type
 template <>
 struct ast_selector<nonnull_type> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		if (n->string_view().back() != '!')
+		{
+			// It's nullable, so only keep the wrapped type.
+			auto child = std::move(n->children.front());
+
+			n = std::move(child);
+		}
+	}
 };
 
 template <>
-- 
2.43.0


From c026fcf8137a7f59a3eaf1e66da616423551c336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 18/50] fix: accept ignored tokens after the "$" of variables
 and the "@" of directives

---
 include/graphqlservice/internal/Grammar.h |  9 +++++----
 src/GraphQLService.cpp                    |  4 ++--
 src/RequestLoader.cpp                     |  2 +-
 src/SyntaxTree.cpp                        | 18 ++++++++++++++++++
 src/Validation.cpp                        |  4 ++--
 5 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index d49c3a3..6727f27 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -84,7 +84,7 @@ struct variable_name_content : name
 };
 
 // http://spec.graphql.org/June2018/#Variable
-struct variable_name : if_must<one<'$'>, variable_name_content>
+struct variable_name : if_must<one<'$'>, star<ignored>, variable_name_content>
 {
 };
 
@@ -413,7 +413,7 @@ struct directive_name : name
 {
 };
 
-struct directive_content : seq<directive_name, opt<star<ignored>, arguments>>
+struct directive_content : seq<star<ignored>, directive_name, opt<star<ignored>, arguments>>
 {
 };
 
@@ -973,8 +973,9 @@ struct directive_definition_start
 };
 
 struct directive_definition_content
-	: seq<star<ignored>, one<'@'>, directive_name, opt<star<ignored>, arguments_definition>,
-		  plus<ignored>, on_keyword, plus<ignored>, directive_locations>
+	: seq<star<ignored>, one<'@'>, star<ignored>, directive_name,
+		  opt<star<ignored>, arguments_definition>, star<ignored>, on_keyword, star<ignored>,
+		  directive_locations>
 {
 };
 
diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 1fc3bae..046a475 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -257,7 +257,7 @@ void ValueVisitor::visit(const peg::ast_node& value)
 
 void ValueVisitor::visitVariable(const peg::ast_node& variable)
 {
-	const auto name = variable.string_view().substr(1);
+	const auto name = variable.unescaped_view();
 	auto itr = _variables.find(name);
 
 	if (itr == _variables.get<response::MapType>().cend())
@@ -1370,7 +1370,7 @@ void OperationDefinitionVisitor::visit(
 			peg::on_first_child<peg::variable_name>(variable,
 				[&variableName](const peg::ast_node& name) {
 					// Skip the $ prefix
-					variableName = name.string_view().substr(1);
+					variableName = name.unescaped_view();
 				});
 
 			auto itrVar = _params->variables.find(variableName);
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 73c7b90..362a322 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -750,7 +750,7 @@ void RequestLoader::collectVariables() noexcept
 				if (child->is_type<peg::variable_name>())
 				{
 					// Skip the $ prefix
-					variable.name = child->string_view().substr(1);
+					variable.name = child->unescaped_view();
 					variable.cppName = _schemaLoader.getSafeCppName(variable.name);
 				}
 				else if (child->is_type<peg::named_type>() || child->is_type<peg::list_type>()
diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 30ee7b1..5ba9052 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -134,9 +134,23 @@ struct ast_selector<object_value> : std::true_type
 {
 };
 
+// The unescaped_view of a variable is its name, without the '$' and any ignored tokens after it.
+void unescape_variable_name(ast_node& n)
+{
+	const auto content = n.string_view();
+	constexpr auto c_nameCharacters =
+		"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"sv;
+
+	n.unescaped_view(content.substr(content.find_last_not_of(c_nameCharacters) + 1));
+}
+
 template <>
 struct ast_selector<variable_value> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		unescape_variable_name(*n);
+	}
 };
 
 template <>
@@ -522,6 +536,10 @@ struct executable_selector : ast_selector<Rule>
 template <>
 struct executable_selector<variable_name> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		unescape_variable_name(*n);
+	}
 };
 
 template <>
diff --git a/src/Validation.cpp b/src/Validation.cpp
index 36d8853..18e4fc4 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -154,7 +154,7 @@ void ValidateArgumentValueVisitor::visit(const peg::ast_node& value)
 
 void ValidateArgumentValueVisitor::visitVariable(const peg::ast_node& variable)
 {
-	ValidateArgumentVariable value { variable.string_view().substr(1) };
+	ValidateArgumentVariable value { variable.unescaped_view() };
 	auto position = variable.begin();
 
 	_argumentValue.value = std::make_unique<ValidateArgumentValue>(std::move(value));
@@ -670,7 +670,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 				if (child->is_type<peg::variable_name>())
 				{
 					// Skip the $ prefix
-					variableName = child->string_view().substr(1);
+					variableName = child->unescaped_view();
 
 					if (_operationVariables->find(variableName) != _operationVariables->end())
 					{
-- 
2.43.0


From 8679cd8f74dd9eb937772d4987f8b64eb0bf1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 19/50] fix: reject variables in default values

---
 src/SyntaxTree.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/SyntaxTree.cpp b/src/SyntaxTree.cpp
index 5ba9052..e6bca9b 100644
--- a/src/SyntaxTree.cpp
+++ b/src/SyntaxTree.cpp
@@ -353,9 +353,27 @@ struct ast_selector<nonnull_type> : std::true_type
 	}
 };
 
+// Default values are constants, there are no variables inside of them.
+void reject_variables(const ast_node& n)
+{
+	for (const auto& child : n.children)
+	{
+		if (child->is_type<variable_value>())
+		{
+			throw parse_error("unexpected variable in default value", child->begin());
+		}
+
+		reject_variables(*child);
+	}
+}
+
 template <>
 struct ast_selector<default_value> : std::true_type
 {
+	static void transform(std::unique_ptr<ast_node>& n)
+	{
+		reject_variables(*n);
+	}
 };
 
 template <>
-- 
2.43.0


From 0fa89d39cdef979854e3c3f3d7e9381e6ce5acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 20/50] fix: reject true, false and null as enum values

---
 include/graphqlservice/internal/Grammar.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 6727f27..6155346 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -248,7 +248,7 @@ struct bool_value : sor<true_keyword, false_keyword>
 };
 
 // http://spec.graphql.org/June2018/#EnumValue
-struct enum_value : seq<not_at<true_keyword, false_keyword, null_keyword>, name>
+struct enum_value : seq<not_at<sor<true_keyword, false_keyword, null_keyword>>, name>
 {
 };
 
-- 
2.43.0


From b75efc1e6f286928d6c67c545d1e7d32ce7c034c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 21/50] fix: reject null for Non-Null arguments and input
 fields with a default value

---
 src/Validation.cpp | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index 18e4fc4..f253cda 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -962,7 +962,7 @@ bool ValidateExecutableVisitor::validateInputValue(
 	if (!argument.value)
 	{
 		// The null literal matches any nullable type and does not match a non-nullable type.
-		if (kind == introspection::TypeKind::NON_NULL && !hasNonNullDefaultValue)
+		if (kind == introspection::TypeKind::NON_NULL)
 		{
 			_errors.push_back({ "Expected Non-Null value", argument.position });
 			return false;
@@ -1068,21 +1068,16 @@ bool ValidateExecutableVisitor::validateInputValue(
 					return false;
 				}
 
-				if (entry.second.value || !itrField->second.defaultValue)
+				if (!validateInputValue(itrField->second.nonNullDefaultValue,
+						entry.second,
+						itrField->second.type))
 				{
-					if (!validateInputValue(itrField->second.nonNullDefaultValue,
-							entry.second,
-							itrField->second.type))
-					{
-						// Error messages are added in the recursive call, so just bubble up the
-						// result.
-						return false;
-					}
-
-					// The recursive call may invalidate the iterator, so reacquire it.
-					itrFields = getInputTypeFields(name);
+					// Error messages are added in the recursive call, so just bubble up the result.
+					return false;
 				}
 
+				// The recursive call may invalidate the iterator, so reacquire it.
+				itrFields = getInputTypeFields(name);
 				subFields.emplace(entry.first);
 			}
 
@@ -1788,7 +1783,7 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 
 				continue;
 			}
-			else if (argument.second.defaultValue)
+			else if (missing && argument.second.defaultValue)
 			{
 				// The argument has a default value.
 				continue;
@@ -2147,7 +2142,7 @@ void ValidateExecutableVisitor::visitDirectives(
 
 						continue;
 					}
-					else if (argument.second.defaultValue)
+					else if (missing && argument.second.defaultValue)
 					{
 						// The argument has a default value.
 						continue;
-- 
2.43.0


From e2268193fdbdf5fe1ef8cadea1d4e1aca07f8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 22/50] fix: report the missing required arguments of
 directives without any arguments

---
 src/Validation.cpp | 111 +++++++++++++++++++++++----------------------
 1 file changed, 56 insertions(+), 55 deletions(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index f253cda..dd56609 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -2072,12 +2072,13 @@ void ValidateExecutableVisitor::visitDirectives(
 			continue;
 		}
 
-		peg::on_first_child<peg::arguments>(*directive,
-			[this, &directive, &directiveName, itrDirective](const peg::ast_node& child) {
-				ValidateFieldArguments validateArguments;
-				internal::string_view_map<schema_location> argumentLocations;
-				std::list<std::string_view> argumentNames;
+		ValidateFieldArguments validateArguments;
+		internal::string_view_map<schema_location> argumentLocations;
+		std::list<std::string_view> argumentNames;
 
+		peg::on_first_child<peg::arguments>(*directive,
+			[this, &directiveName, &validateArguments, &argumentLocations, &argumentNames](
+				const peg::ast_node& child) {
 				for (auto& argument : child.children)
 				{
 					auto position = argument->begin();
@@ -2102,68 +2103,68 @@ void ValidateExecutableVisitor::visitDirectives(
 					argumentLocations[argumentName] = { position.line, position.column };
 					argumentNames.push_back(argumentName);
 				}
+			});
 
-				for (auto argumentName : argumentNames)
-				{
-					auto itrArgument = itrDirective->second.arguments.find(argumentName);
+		for (auto argumentName : argumentNames)
+		{
+			auto itrArgument = itrDirective->second.arguments.find(argumentName);
 
-					if (itrArgument == itrDirective->second.arguments.end())
-					{
-						// http://spec.graphql.org/June2018/#sec-Argument-Names
-						std::ostringstream message;
+			if (itrArgument == itrDirective->second.arguments.end())
+			{
+				// http://spec.graphql.org/June2018/#sec-Argument-Names
+				std::ostringstream message;
 
-						message << "Undefined argument directive: " << directiveName
-								<< " name: " << argumentName;
+				message << "Undefined argument directive: " << directiveName
+						<< " name: " << argumentName;
 
-						_errors.push_back({ message.str(), argumentLocations[argumentName] });
-					}
-				}
+				_errors.push_back({ message.str(), argumentLocations[argumentName] });
+			}
+		}
 
-				for (auto& argument : itrDirective->second.arguments)
-				{
-					auto itrArgument = validateArguments.find(argument.first);
-					const bool missing = itrArgument == validateArguments.end();
+		for (auto& argument : itrDirective->second.arguments)
+		{
+			auto itrArgument = validateArguments.find(argument.first);
+			const bool missing = itrArgument == validateArguments.end();
 
-					if (!missing && itrArgument->second.value)
-					{
-						// The value was not null.
-						if (!validateInputValue(argument.second.nonNullDefaultValue,
-								itrArgument->second,
-								argument.second.type))
-						{
-							// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
-							std::ostringstream message;
+			if (!missing && itrArgument->second.value)
+			{
+				// The value was not null.
+				if (!validateInputValue(argument.second.nonNullDefaultValue,
+						itrArgument->second,
+						argument.second.type))
+				{
+					// http://spec.graphql.org/June2018/#sec-Values-of-Correct-Type
+					std::ostringstream message;
 
-							message << "Incompatible argument directive: " << directiveName
-									<< " name: " << argument.first;
+					message << "Incompatible argument directive: " << directiveName
+							<< " name: " << argument.first;
 
-							_errors.push_back({ message.str(), argumentLocations[argument.first] });
-						}
+					_errors.push_back({ message.str(), argumentLocations[argument.first] });
+				}
 
-						continue;
-					}
-					else if (missing && argument.second.defaultValue)
-					{
-						// The argument has a default value.
-						continue;
-					}
+				continue;
+			}
+			else if (missing && argument.second.defaultValue)
+			{
+				// The argument has a default value.
+				continue;
+			}
 
-					// See if the argument is wrapped in NON_NULL
-					if (argument.second.type
-						&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
-					{
-						// http://spec.graphql.org/June2018/#sec-Required-Arguments
-						auto position = directive->begin();
-						std::ostringstream message;
+			// See if the argument is wrapped in NON_NULL
+			if (argument.second.type
+				&& introspection::TypeKind::NON_NULL == argument.second.type->get().kind())
+			{
+				// http://spec.graphql.org/June2018/#sec-Required-Arguments
+				auto position = directive->begin();
+				std::ostringstream message;
 
-						message << (missing ? "Missing argument directive: "
-											: "Required non-null argument directive: ")
-								<< directiveName << " name: " << argument.first;
+				message << (missing ? "Missing argument directive: "
+									: "Required non-null argument directive: ")
+						<< directiveName << " name: " << argument.first;
 
-						_errors.push_back({ message.str(), { position.line, position.column } });
-					}
-				}
-			});
+				_errors.push_back({ message.str(), { position.line, position.column } });
+			}
+		}
 	}
 }
 
-- 
2.43.0


From adf59eaccf6690967b7c7ad68dd3b3b279c4fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 23/50] fix: forget the variables of operations with an
 unsupported type

---
 src/Validation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Validation.cpp b/src/Validation.cpp
index dd56609..c4bef6c 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -781,6 +781,9 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 		error << "Unsupported operation type: " << operationType;
 
 		_errors.push_back({ error.str(), { position.line, position.column } });
+		_operationVariables.reset();
+		_variableDefinitions.clear();
+		_referencedVariables.clear();
 		return;
 	}
 
@@ -1487,7 +1490,10 @@ ValidateExecutableVisitor::TypeFields::const_iterator ValidateExecutableVisitor:
 			validateFields[fieldName] = std::move(subField);
 		}
 
-		if (_schema->supportsIntrospection() && _scopedType == _operationTypes[strQuery])
+		const auto itrQuery = _operationTypes.find(strQuery);
+
+		if (_schema->supportsIntrospection() && itrQuery != _operationTypes.end()
+			&& _scopedType == itrQuery->second)
 		{
 			ValidateTypeField schemaField;
 
-- 
2.43.0


From 6776a87be793df191b996804946632fc0f208a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 24/50] fix: validate every selection of a response name, and
 merge their sub-selections

---
 include/Validation.h |  32 +++++++++--
 src/Validation.cpp   | 132 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 133 insertions(+), 31 deletions(-)

diff --git a/include/Validation.h b/include/Validation.h
index 8a86f09..8c01e63 100644
--- a/include/Validation.h
+++ b/include/Validation.h
@@ -127,15 +127,38 @@ using ValidateFieldArguments = internal::string_view_map<ValidateArgumentValuePt
 
 struct ValidateField
 {
-	ValidateField(ValidateType&& returnType, ValidateType&& objectType, std::string_view fieldName,
-		ValidateFieldArguments&& arguments);
+	ValidateField(ValidateType&& returnType, std::vector<ValidateType>&& objectTypes,
+		std::string_view fieldName, ValidateFieldArguments&& arguments);
 
 	bool operator==(const ValidateField& other) const;
 
+	// Determine if both fields can share a response name.
+	bool canMerge(const ValidateField& other) const;
+
 	ValidateType returnType;
-	ValidateType objectType;
+
+	// The object type which contains the field, preceded by those which contain its parents. Any of
+	// them are empty if the field is selected on an interface or a union.
+	std::vector<ValidateType> objectTypes;
+
 	std::string_view fieldName;
 	ValidateFieldArguments arguments;
+
+private:
+	bool canMergeArguments(const ValidateField& other) const;
+	static constexpr bool isCompositeType(introspection::TypeKind kind);
+};
+
+struct ValidateSelectionField;
+
+using ValidateSelectionFields =
+	internal::string_view_map<std::shared_ptr<ValidateSelectionField>>;
+
+// All of the fields with the same response name, and their merged sub-selections.
+struct ValidateSelectionField
+{
+	std::vector<ValidateField> fields;
+	ValidateSelectionFields selectionFields;
 };
 
 using ValidateTypes = internal::string_view_map<ValidateType>;
@@ -255,7 +278,8 @@ private:
 	TypeFields _typeFields;
 	InputTypeFields _inputTypeFields;
 	ValidateType _scopedType;
-	internal::string_view_map<ValidateField> _selectionFields;
+	std::vector<ValidateType> _objectTypes;
+	ValidateSelectionFields _selectionFields;
 };
 
 } // namespace graphql::service
diff --git a/src/Validation.cpp b/src/Validation.cpp
index c4bef6c..35341f8 100644
--- a/src/Validation.cpp
+++ b/src/Validation.cpp
@@ -275,10 +275,10 @@ void ValidateArgumentValueVisitor::visitObjectValue(const peg::ast_node& objectV
 	_argumentValue.position = { position.line, position.column };
 }
 
-ValidateField::ValidateField(ValidateType&& returnType, ValidateType&& objectType,
+ValidateField::ValidateField(ValidateType&& returnType, std::vector<ValidateType>&& objectTypes,
 	std::string_view fieldName, ValidateFieldArguments&& arguments)
 	: returnType(std::move(returnType))
-	, objectType(std::move(objectType))
+	, objectTypes(std::move(objectTypes))
 	, fieldName(fieldName)
 	, arguments(std::move(arguments))
 {
@@ -286,9 +286,71 @@ ValidateField::ValidateField(ValidateType&& returnType, ValidateType&& objectTyp
 
 bool ValidateField::operator==(const ValidateField& other) const
 {
-	return (returnType == other.returnType)
-		&& ((objectType && other.objectType && &objectType->get() != &other.objectType->get())
-			|| (fieldName == other.fieldName && arguments == other.arguments));
+	return returnType == other.returnType
+		&& std::equal(objectTypes.begin(),
+			objectTypes.end(),
+			other.objectTypes.begin(),
+			other.objectTypes.end(),
+			[](const ValidateType& lhs, const ValidateType& rhs) noexcept {
+				return lhs == rhs;
+			})
+		&& fieldName == other.fieldName && arguments == other.arguments;
+}
+
+bool ValidateField::canMerge(const ValidateField& other) const
+{
+	// The values must have the same shape, even if they never appear in the same response.
+	auto lhs = returnType;
+	auto rhs = other.returnType;
+
+	while (!(lhs == rhs))
+	{
+		if (!lhs || !rhs || lhs->get().kind() != rhs->get().kind())
+		{
+			return lhs && rhs && isCompositeType(lhs->get().kind())
+				&& isCompositeType(rhs->get().kind()) && canMergeArguments(other);
+		}
+
+		if (lhs->get().kind() != introspection::TypeKind::NON_NULL
+			&& lhs->get().kind() != introspection::TypeKind::LIST)
+		{
+			return isCompositeType(lhs->get().kind()) && canMergeArguments(other);
+		}
+
+		lhs = getValidateType(lhs->get().ofType().lock());
+		rhs = getValidateType(rhs->get().ofType().lock());
+	}
+
+	return canMergeArguments(other);
+}
+
+bool ValidateField::canMergeArguments(const ValidateField& other) const
+{
+	// The fields may differ if the types of the objects which contain them (or which contain any of
+	// their parents) never match both of them at the same time.
+	for (size_t i = 0; i < objectTypes.size() && i < other.objectTypes.size(); ++i)
+	{
+		if (objectTypes[i] && other.objectTypes[i] && !(objectTypes[i] == other.objectTypes[i]))
+		{
+			return true;
+		}
+	}
+
+	return fieldName == other.fieldName && arguments == other.arguments;
+}
+
+constexpr bool ValidateField::isCompositeType(introspection::TypeKind kind)
+{
+	switch (kind)
+	{
+		case introspection::TypeKind::OBJECT:
+		case introspection::TypeKind::INTERFACE:
+		case introspection::TypeKind::UNION:
+			return true;
+
+		default:
+			return false;
+	}
 }
 
 ValidateVariableTypeVisitor::ValidateVariableTypeVisitor(
@@ -794,7 +856,7 @@ void ValidateExecutableVisitor::visitOperationDefinition(const peg::ast_node& op
 
 	visitSelection(selection);
 
-	if (_fieldCount > 1 && operationType == strSubscription)
+	if (_selectionFields.size() > 1 && operationType == strSubscription)
 	{
 		// http://spec.graphql.org/June2018/#sec-Single-root-field
 		auto position = operationDefinition.begin();
@@ -1718,34 +1780,40 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 			}
 		});
 
-	ValidateType objectType =
-		(_scopedType->get().kind() == introspection::TypeKind::OBJECT ? _scopedType
-																	  : ValidateType {});
+	auto objectTypes = _objectTypes;
+
+	objectTypes.push_back(_scopedType->get().kind() == introspection::TypeKind::OBJECT
+			? _scopedType
+			: ValidateType {});
+
 	ValidateField validateField(std::move(wrappedType),
-		std::move(objectType),
+		std::move(objectTypes),
 		name,
 		std::move(validateArguments));
-	auto itrValidateField = _selectionFields.find(alias);
+	auto& selectionField = _selectionFields[alias];
 
-	if (itrValidateField != _selectionFields.end())
+	if (!selectionField)
 	{
-		if (itrValidateField->second == validateField)
-		{
-			// We already validated this field.
-			return;
-		}
-		else
-		{
-			// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
-			auto position = field.begin();
-			std::ostringstream message;
+		selectionField = std::make_shared<ValidateSelectionField>();
+	}
+	else if (!std::all_of(selectionField->fields.begin(),
+				 selectionField->fields.end(),
+				 [&validateField](const ValidateField& other) {
+					 return validateField.canMerge(other);
+				 }))
+	{
+		// http://spec.graphql.org/June2018/#sec-Field-Selection-Merging
+		auto position = field.begin();
+		std::ostringstream message;
 
-			message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;
+		message << "Conflicting field type: " << _scopedType->get().name() << " name: " << name;
 
-			_errors.push_back({ message.str(), { position.line, position.column } });
-		}
+		_errors.push_back({ message.str(), { position.line, position.column } });
 	}
 
+	// Sub-selections of the same response name are merged, so they share the selected fields.
+	const auto mergedField = selectionField;
+
 	auto itrField = itrType->second.find(name);
 
 	if (itrField != itrType->second.end())
@@ -1813,7 +1881,13 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_selectionFields.emplace(alias, std::move(validateField));
+	auto innerObjectTypes = validateField.objectTypes;
+
+	if (std::find(mergedField->fields.begin(), mergedField->fields.end(), validateField)
+		== mergedField->fields.end())
+	{
+		mergedField->fields.push_back(std::move(validateField));
+	}
 
 	const peg::ast_node* selection = nullptr;
 
@@ -1827,17 +1901,21 @@ void ValidateExecutableVisitor::visitField(const peg::ast_node& field)
 	{
 		auto outerType = std::move(_scopedType);
 		auto outerFields = std::move(_selectionFields);
+		auto outerObjectTypes = std::move(_objectTypes);
 		auto outerFieldCount = _fieldCount;
 
 		_fieldCount = 0;
-		_selectionFields.clear();
+		_selectionFields = std::move(mergedField->selectionFields);
+		_objectTypes = std::move(innerObjectTypes);
 		_scopedType = std::move(innerType);
 
 		visitSelection(*selection);
 
 		innerType = std::move(_scopedType);
 		_scopedType = std::move(outerType);
+		mergedField->selectionFields = std::move(_selectionFields);
 		_selectionFields = std::move(outerFields);
+		_objectTypes = std::move(outerObjectTypes);
 		subFieldCount = _fieldCount;
 		_fieldCount = outerFieldCount;
 	}
-- 
2.43.0


From 4321cf3bf1aec2c5696e24d5d973f9ba8ff52377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 25/50] fix: complete each root field of a mutation before the
 next one starts

---
 src/GraphQLService.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 046a475..679e46f 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -956,6 +956,13 @@ void SelectionVisitor::visitField(const peg::ast_node& field)
 			_fragments,
 			_variables));
 
+		// http://spec.graphql.org/June2018/#sec-Normal-and-Serial-Execution
+		// Each of the top-level mutation fields must complete before the next one starts.
+		if (_resolverContext == ResolverContext::Mutation && !_path)
+		{
+			result.wait();
+		}
+
 		_values.push_back({ alias, location, std::move(result) });
 	}
 	catch (schema_exception& scx)
-- 
2.43.0


From bdb75d4b0f2307d79459e5b9e17c84d8c490b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 26/50] fix: subscribe only to the requested operation of a
 document

---
 src/GraphQLService.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 679e46f..50bd122 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1451,7 +1451,6 @@ public:
 	SubscriptionDefinitionVisitor(SubscriptionParams&& params, SubscriptionCallback&& callback,
 		FragmentMap&& fragments, const std::shared_ptr<Object>& subscriptionObject);
 
-	const peg::ast_node& getRoot() const;
 	std::shared_ptr<SubscriptionData> getRegistration();
 
 	void visit(const peg::ast_node& operationDefinition);
@@ -1481,11 +1480,6 @@ SubscriptionDefinitionVisitor::SubscriptionDefinitionVisitor(SubscriptionParams&
 {
 }
 
-const peg::ast_node& SubscriptionDefinitionVisitor::getRoot() const
-{
-	return *_params.query.root;
-}
-
 std::shared_ptr<SubscriptionData> SubscriptionDefinitionVisitor::getRegistration()
 {
 	auto result = std::move(_result);
@@ -2057,10 +2051,7 @@ SubscriptionKey Request::subscribe(SubscriptionParams&& params, SubscriptionCall
 		std::move(fragments),
 		itr->second);
 
-	peg::for_each_child<peg::operation_definition>(subscriptionVisitor.getRoot(),
-		[&subscriptionVisitor](const peg::ast_node& child) {
-			subscriptionVisitor.visit(child);
-		});
+	subscriptionVisitor.visit(*operationDefinition.second);
 
 	auto registration = subscriptionVisitor.getRegistration();
 	auto key = _nextKey++;
-- 
2.43.0


From c226fddae555c77b90296780b6889f8e1c97cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 27/50] fix: find the field of a subscription in fragments

---
 src/GraphQLService.cpp | 46 +++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 50bd122..45e8688 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1456,6 +1456,7 @@ public:
 	void visit(const peg::ast_node& operationDefinition);
 
 private:
+	void visitSelectionSet(const peg::ast_node& selectionSet);
 	void visitField(const peg::ast_node& field);
 	void visitFragmentSpread(const peg::ast_node& fragmentSpread);
 	void visitInlineFragment(const peg::ast_node& inlineFragment);
@@ -1493,21 +1494,7 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
-	for (const auto& child : selection.children)
-	{
-		if (child->is_type<peg::field>())
-		{
-			visitField(*child);
-		}
-		else if (child->is_type<peg::fragment_spread>())
-		{
-			visitFragmentSpread(*child);
-		}
-		else if (child->is_type<peg::inline_fragment>())
-		{
-			visitInlineFragment(*child);
-		}
-	}
+	visitSelectionSet(selection);
 
 	response::Value directives(response::Type::Map);
 
@@ -1533,6 +1520,25 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 			selection);
 }
 
+void SubscriptionDefinitionVisitor::visitSelectionSet(const peg::ast_node& selectionSet)
+{
+	for (const auto& child : selectionSet.children)
+	{
+		if (child->is_type<peg::field>())
+		{
+			visitField(*child);
+		}
+		else if (child->is_type<peg::fragment_spread>())
+		{
+			visitFragmentSpread(*child);
+		}
+		else if (child->is_type<peg::inline_fragment>())
+		{
+			visitInlineFragment(*child);
+		}
+	}
+}
+
 void SubscriptionDefinitionVisitor::visitField(const peg::ast_node& field)
 {
 	std::string_view name;
@@ -1619,10 +1625,7 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		return;
 	}
 
-	for (const auto& selection : itr->second.getSelection().children)
-	{
-		visit(*selection);
-	}
+	visitSelectionSet(itr->second.getSelection());
 }
 
 void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inlineFragment)
@@ -1650,10 +1653,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
-			for (const auto& selection : child.children)
-			{
-				visit(*selection);
-			}
+			visitSelectionSet(child);
 		});
 	}
 }
-- 
2.43.0


From 0532e1f61b997dbf2686a5e751980cc13dc7ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 28/50] fix: apply the default values of variables in
 subscriptions

---
 src/GraphQLService.cpp | 78 +++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 45e8688..c9ea194 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1297,6 +1297,46 @@ void FragmentDefinitionVisitor::visit(const peg::ast_node& fragmentDefinition)
 		Fragment(fragmentDefinition, _variables));
 }
 
+// Filter the variables down to the ones defined by the operation and fill in their default values.
+static response::Value getOperationVariables(
+	const response::Value& variables, const peg::ast_node& operationDefinition)
+{
+	response::Value operationVariables(response::Type::Map);
+
+	peg::for_each_child<peg::variable>(operationDefinition,
+		[&variables, &operationVariables](const peg::ast_node& variable) {
+			std::string variableName;
+
+			peg::on_first_child<peg::variable_name>(variable,
+				[&variableName](const peg::ast_node& name) {
+					// Skip the $ prefix
+					variableName = name.unescaped_view();
+				});
+
+			auto itrVar = variables.find(variableName);
+			response::Value valueVar;
+
+			if (itrVar != variables.get<response::MapType>().cend())
+			{
+				valueVar = response::Value(itrVar->second);
+			}
+			else
+			{
+				peg::on_first_child<peg::default_value>(variable,
+					[&variables, &valueVar](const peg::ast_node& defaultValue) {
+						ValueVisitor visitor(variables);
+
+						visitor.visit(*defaultValue.children.front());
+						valueVar = visitor.getValue();
+					});
+			}
+
+			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
+		});
+
+	return operationVariables;
+}
+
 // OperationDefinitionVisitor visits the AST and executes the one with the specified
 // operation name.
 class OperationDefinitionVisitor
@@ -1367,41 +1407,7 @@ void OperationDefinitionVisitor::visit(
 		};
 	}
 
-	// Filter the variable definitions down to the ones referenced in this operation
-	response::Value operationVariables(response::Type::Map);
-
-	peg::for_each_child<peg::variable>(operationDefinition,
-		[this, &operationVariables](const peg::ast_node& variable) {
-			std::string variableName;
-
-			peg::on_first_child<peg::variable_name>(variable,
-				[&variableName](const peg::ast_node& name) {
-					// Skip the $ prefix
-					variableName = name.unescaped_view();
-				});
-
-			auto itrVar = _params->variables.find(variableName);
-			response::Value valueVar;
-
-			if (itrVar != _params->variables.get<response::MapType>().cend())
-			{
-				valueVar = response::Value(itrVar->second);
-			}
-			else
-			{
-				peg::on_first_child<peg::default_value>(variable,
-					[this, &valueVar](const peg::ast_node& defaultValue) {
-						ValueVisitor visitor(_params->variables);
-
-						visitor.visit(*defaultValue.children.front());
-						valueVar = visitor.getValue();
-					});
-			}
-
-			operationVariables.emplace_back(std::move(variableName), std::move(valueVar));
-		});
-
-	_params->variables = std::move(operationVariables);
+	_params->variables = getOperationVariables(_params->variables, operationDefinition);
 
 	response::Value operationDirectives(response::Type::Map);
 
@@ -1494,6 +1500,8 @@ void SubscriptionDefinitionVisitor::visit(const peg::ast_node& operationDefiniti
 {
 	const auto& selection = *operationDefinition.children.back();
 
+	_params.variables = getOperationVariables(_params.variables, operationDefinition);
+
 	visitSelectionSet(selection);
 
 	response::Value directives(response::Type::Map);
-- 
2.43.0


From c438cbe15e417fd232d0b53e804c87bb5f25c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 29/50] fix: subscriptions without a default object crashed on
 fragments and notifications

---
 src/GraphQLService.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index c9ea194..3c371d5 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -1615,7 +1615,9 @@ void SubscriptionDefinitionVisitor::visitFragmentSpread(const peg::ast_node& fra
 		};
 	}
 
-	bool skip = !_subscriptionObject->matchesType(itr->second.getType());
+	// Without a default object we rely on validation, which only lets fragments through if they can
+	// apply to the subscription type.
+	bool skip = _subscriptionObject && !_subscriptionObject->matchesType(itr->second.getType());
 	DirectiveVisitor directiveVisitor(_params.variables);
 
 	if (!skip)
@@ -1657,7 +1659,7 @@ void SubscriptionDefinitionVisitor::visitInlineFragment(const peg::ast_node& inl
 			typeCondition = &child;
 		});
 
-	if (typeCondition == nullptr
+	if (typeCondition == nullptr || !_subscriptionObject
 		|| _subscriptionObject->matchesType(typeCondition->children.front()->string()))
 	{
 		peg::on_first_child<peg::selection_set>(inlineFragment, [this](const peg::ast_node& child) {
@@ -2080,7 +2082,7 @@ std::future<SubscriptionKey> Request::subscribe(
 			const auto key = spThis->subscribe(std::move(paramsFuture), std::move(callbackFuture));
 			const auto itrOperation = spThis->_operations.find(strSubscription);
 
-			if (itrOperation != spThis->_operations.end())
+			if (itrOperation != spThis->_operations.end() && itrOperation->second)
 			{
 				const auto& operation = itrOperation->second;
 				const auto& registration = spThis->_subscriptions.at(key);
@@ -2154,7 +2156,7 @@ std::future<void> Request::unsubscribe(std::launch launch, SubscriptionKey key)
 	return std::async(launch, [spThis = shared_from_this(), launch, key]() {
 		const auto itrOperation = spThis->_operations.find(strSubscription);
 
-		if (itrOperation != spThis->_operations.end())
+		if (itrOperation != spThis->_operations.end() && itrOperation->second)
 		{
 			const auto& operation = itrOperation->second;
 			const auto& registration = spThis->_subscriptions.at(key);
-- 
2.43.0


From ecc259156f4bbcc4d9f956f6c2e8b316112ed167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:31 +0000
Subject: [PATCH 30/50] fix: a string parsed from JSON compares equal to the
 same string

---
 src/GraphQLResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 7ddaf65..5656248 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -21,7 +21,7 @@ bool Value::MapData::operator==(const MapData& rhs) const
 
 bool Value::StringData::operator==(const StringData& rhs) const
 {
-	return from_json == rhs.from_json && string == rhs.string;
+	return string == rhs.string;
 }
 
 bool Value::NullData::operator==(const NullData&) const
-- 
2.43.0


From cd173c7744661d7ef23f9b2b8f61313c09abdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 31/50] fix: an exception from a subscription callback kept the
 event from other subscriptions

---
 src/GraphQLService.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLService.cpp b/src/GraphQLService.cpp
index 3c371d5..d3d1e2b 100644
--- a/src/GraphQLService.cpp
+++ b/src/GraphQLService.cpp
@@ -2397,9 +2397,27 @@ void Request::deliver(std::launch launch, const SubscriptionName& name,
 			std::move(result)));
 	}
 
+	std::exception_ptr firstException;
+
 	for (auto& callback : callbacks)
 	{
-		callback.get();
+		try
+		{
+			callback.get();
+		}
+		catch (...)
+		{
+			// Don't let an exception from one of the callbacks keep us from invoking the rest.
+			if (!firstException)
+			{
+				firstException = std::current_exception();
+			}
+		}
+	}
+
+	if (firstException)
+	{
+		std::rethrow_exception(firstException);
 	}
 }
 
-- 
2.43.0


From 9cd012e053155cdddd42311fc15a1c369af78f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 32/50] fix: copying a scalar value that holds nothing threw an
 exception

---
 src/GraphQLResponse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphQLResponse.cpp b/src/GraphQLResponse.cpp
index 5656248..095f85c 100644
--- a/src/GraphQLResponse.cpp
+++ b/src/GraphQLResponse.cpp
@@ -466,8 +466,12 @@ Value::Value(const Value& other)
 			break;
 
 		case Type::Scalar:
-			_data = { ScalarData { std::make_unique<ScalarType>(other.get<ScalarType>()) } };
+		{
+			const auto& scalar = std::get<ScalarData>(other._data).scalar;
+
+			_data = { ScalarData { scalar ? std::make_unique<ScalarType>(*scalar) : nullptr } };
 			break;
+		}
 	}
 }
 
-- 
2.43.0


From 7e0eeb0749032e80351325a937a6bac4a9987a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 33/50] fix: strings containing NUL were cut off in JSON

---
 src/JSONResponse.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c0d9172..c3640b7 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -28,7 +28,8 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 			for (auto& entry : members)
 			{
-				writer.Key(entry.first.c_str());
+				writer.Key(entry.first.c_str(),
+					static_cast<rapidjson::SizeType>(entry.first.size()));
 				writeResponse(writer, std::move(entry.second));
 			}
 
@@ -56,7 +57,7 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 		{
 			auto value = response.release<StringType>();
 
-			writer.String(value.c_str());
+			writer.String(value.c_str(), static_cast<rapidjson::SizeType>(value.size()));
 			break;
 		}
 
@@ -104,7 +105,7 @@ std::string toJSON(Value&& response)
 	rapidjson::Writer<rapidjson::StringBuffer> writer(buffer);
 
 	writeResponse(writer, std::move(response));
-	return buffer.GetString();
+	return std::string { buffer.GetString(), buffer.GetSize() };
 }
 
 struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, ResponseHandler>
@@ -178,9 +179,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool String(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool String(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		setValue(Value(std::string(str)).from_json());
+		setValue(Value(std::string(str, length)).from_json());
 		return true;
 	}
 
@@ -190,9 +191,9 @@ struct ResponseHandler : rapidjson::BaseReaderHandler<rapidjson::UTF8<>, Respons
 		return true;
 	}
 
-	bool Key(const Ch* str, rapidjson::SizeType /*length*/, bool /*copy*/)
+	bool Key(const Ch* str, rapidjson::SizeType length, bool /*copy*/)
 	{
-		_keyStack.push_back(str);
+		_keyStack.emplace_back(str, length);
 		return true;
 	}
 
-- 
2.43.0


From 8c99368aea69f0edcf493ac110371ddd4e0ec83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 34/50] fix: Float values lost precision when parsed from JSON

---
 src/JSONResponse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index c3640b7..a28ca69 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -245,7 +245,7 @@ Value parseJSON(const std::string& json)
 	rapidjson::Reader reader;
 	rapidjson::StringStream ss(json.c_str());
 
-	reader.Parse(ss, handler);
+	reader.Parse<rapidjson::kParseFullPrecisionFlag>(ss, handler);
 
 	return handler.getResponse();
 }
-- 
2.43.0


From 584d54c808b2f123110a3c45b1abbf096ec949c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 35/50] fix: Float values which are not finite made the JSON
 output invalid

---
 src/JSONResponse.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/JSONResponse.cpp b/src/JSONResponse.cpp
index a28ca69..ee3fc61 100644
--- a/src/JSONResponse.cpp
+++ b/src/JSONResponse.cpp
@@ -10,6 +10,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <stdexcept>
 #include <vector>
@@ -81,7 +82,17 @@ void writeResponse(rapidjson::Writer<rapidjson::StringBuffer>& writer, Value&& r
 
 		case Type::Float:
 		{
-			writer.Double(response.get<FloatType>());
+			const auto value = response.get<FloatType>();
+
+			if (std::isfinite(value))
+			{
+				writer.Double(value);
+			}
+			else
+			{
+				// JSON has no representation for NaN or infinity.
+				writer.Null();
+			}
 			break;
 		}
 
-- 
2.43.0


From db88b6e8825c90e9bd21cb03cc21b8f482d68f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 36/50] fix: check and classify the types of all field and
 directive arguments in the schema loader

---
 src/SchemaLoader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd347d7..72f06c2 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -202,6 +202,11 @@ void SchemaLoader::validateSchema()
 	// Handle nested input types by fully declaring the dependencies first.
 	reorderInputTypeDependencies();
 
+	for (auto& entry : _directives)
+	{
+		fixupInputFieldList(entry.arguments);
+	}
+
 	for (auto& entry : _interfaceTypes)
 	{
 		fixupOutputFieldList(entry.fields, std::nullopt, std::nullopt);
@@ -377,6 +382,8 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 			entry.accessor = *accessor;
 		}
 
+		fixupInputFieldList(entry.arguments);
+
 		if (s_builtinTypes.find(entry.type) != s_builtinTypes.cend())
 		{
 			continue;
@@ -435,8 +442,6 @@ void SchemaLoader::fixupOutputFieldList(OutputFieldList& fields,
 				throw std::runtime_error(error.str());
 			}
 		}
-
-		fixupInputFieldList(entry.arguments);
 	}
 }
 
-- 
2.43.0


From d9e867239f825b1f0ff9d1b4e3026a257141abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 37/50] fix: use the default reason for @deprecated without an
 argument in the schema loader

---
 src/SchemaLoader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 72f06c2..cd06aba 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -14,6 +14,9 @@ using namespace std::literals;
 
 namespace graphql::generator {
 
+// Default value of the reason argument for the @deprecated directive.
+constexpr auto strDefaultDeprecationReason = "No longer supported"sv;
+
 const std::string_view SchemaLoader::s_introspectionNamespace = "introspection"sv;
 
 const BuiltinTypeMap SchemaLoader::s_builtinTypes = {
@@ -894,7 +897,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view reason;
+							value.deprecationReason = strDefaultDeprecationReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&value](const peg::ast_node& arguments) {
@@ -1114,7 +1117,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 
 						if (directiveName == "deprecated")
 						{
-							std::string_view deprecationReason;
+							std::string_view deprecationReason = strDefaultDeprecationReason;
 
 							peg::on_first_child<peg::arguments>(directive,
 								[&deprecationReason](const peg::ast_node& arguments) {
-- 
2.43.0


From bff0ff5d2e98b1dee37fa0c6a2ec7dd666421cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 38/50] fix: apply type extensions before the definition, and
 reject those of unknown types

---
 include/SchemaLoader.h |  5 +++
 src/SchemaLoader.cpp   | 77 +++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 81 insertions(+), 1 deletion(-)

diff --git a/include/SchemaLoader.h b/include/SchemaLoader.h
index cbd8169..6d64ee9 100644
--- a/include/SchemaLoader.h
+++ b/include/SchemaLoader.h
@@ -259,11 +259,16 @@ public:
 	std::string getOutputCppType(const OutputField& field) const noexcept;
 
 private:
+	static bool isExtension(const peg::ast_node& definition) noexcept;
+	[[noreturn]] static void throwUnknownExtension(
+		std::string_view name, const peg::ast_node& typeExtension);
+
 	void visitDefinition(const peg::ast_node& definition);
 
 	void visitSchemaDefinition(const peg::ast_node& schemaDefinition);
 	void visitSchemaExtension(const peg::ast_node& schemaExtension);
 	void visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition);
+	void visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension);
 	void visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition);
 	void visitEnumTypeExtension(const peg::ast_node& enumTypeExtension);
 	void visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition);
diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index cd06aba..c1f313e 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -166,9 +166,21 @@ SchemaLoader::SchemaLoader(std::optional<SchemaOptions>&& customSchema)
 		}
 	}
 
+	// Visit all of the definitions first, a type may be extended before it is defined.
 	for (const auto& child : _ast.root->children)
 	{
-		visitDefinition(*child);
+		if (!isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
+	}
+
+	for (const auto& child : _ast.root->children)
+	{
+		if (isExtension(*child))
+		{
+			visitDefinition(*child);
+		}
 	}
 
 	validateSchema();
@@ -557,6 +569,29 @@ void SchemaLoader::reorderInputTypeDependencies()
 	}
 }
 
+bool SchemaLoader::isExtension(const peg::ast_node& definition) noexcept
+{
+	return definition.is_type<peg::schema_extension>()
+		|| definition.is_type<peg::scalar_type_extension>()
+		|| definition.is_type<peg::enum_type_extension>()
+		|| definition.is_type<peg::input_object_type_extension>()
+		|| definition.is_type<peg::union_type_extension>()
+		|| definition.is_type<peg::interface_type_extension>()
+		|| definition.is_type<peg::object_type_extension>();
+}
+
+void SchemaLoader::throwUnknownExtension(
+	std::string_view name, const peg::ast_node& typeExtension)
+{
+	const auto position = typeExtension.begin();
+	std::ostringstream error;
+
+	error << "Unknown type extended: " << name << " line: " << position.line
+		  << " column: " << position.column;
+
+	throw std::runtime_error(error.str());
+}
+
 void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 {
 	if (definition.is_type<peg::schema_definition>())
@@ -571,6 +606,10 @@ void SchemaLoader::visitDefinition(const peg::ast_node& definition)
 	{
 		visitScalarTypeDefinition(definition);
 	}
+	else if (definition.is_type<peg::scalar_type_extension>())
+	{
+		visitScalarTypeExtension(definition);
+	}
 	else if (definition.is_type<peg::enum_type_definition>())
 	{
 		visitEnumTypeDefinition(definition);
@@ -710,6 +749,10 @@ void SchemaLoader::visitObjectTypeExtension(const peg::ast_node& objectTypeExten
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, objectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTypeDefinition)
@@ -767,6 +810,10 @@ void SchemaLoader::visitInterfaceTypeExtension(const peg::ast_node& interfaceTyp
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, interfaceTypeExtension);
+	}
 }
 
 void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObjectTypeDefinition)
@@ -824,6 +871,10 @@ void SchemaLoader::visitInputObjectTypeExtension(const peg::ast_node& inputObjec
 				}
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, inputObjectTypeExtension);
+	}
 }
 
 void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefinition)
@@ -928,6 +979,10 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 			enumType.values.push_back(std::move(value));
 		});
 	}
+	else
+	{
+		throwUnknownExtension(name, enumTypeExtension);
+	}
 }
 
 void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefinition)
@@ -954,6 +1009,22 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 	_scalarTypes.push_back({ name, description });
 }
 
+void SchemaLoader::visitScalarTypeExtension(const peg::ast_node& scalarTypeExtension)
+{
+	std::string_view name;
+
+	peg::on_first_child<peg::scalar_name>(scalarTypeExtension,
+		[&name](const peg::ast_node& child) {
+			name = child.string_view();
+		});
+
+	// Only directives may be added to a scalar type, there is nothing else to merge.
+	if (_scalarNames.find(name) == _scalarNames.cend())
+	{
+		throwUnknownExtension(name, scalarTypeExtension);
+	}
+}
+
 void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefinition)
 {
 	std::string_view name;
@@ -1001,6 +1072,10 @@ void SchemaLoader::visitUnionTypeExtension(const peg::ast_node& unionTypeExtensi
 				unionType.options.push_back(child.string_view());
 			});
 	}
+	else
+	{
+		throwUnknownExtension(name, unionTypeExtension);
+	}
 }
 
 void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefinition)
-- 
2.43.0


From f0f8c6894193ddfbca036e3aae8fccdbe48a625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:45 +0000
Subject: [PATCH 39/50] fix: allow ignored tokens between directives and
 operation types in a schema extension

---
 include/graphqlservice/internal/Grammar.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/graphqlservice/internal/Grammar.h b/include/graphqlservice/internal/Grammar.h
index 6155346..b0104c9 100644
--- a/include/graphqlservice/internal/Grammar.h
+++ b/include/graphqlservice/internal/Grammar.h
@@ -1010,7 +1010,8 @@ struct schema_extension_operation_type_definitions
 
 struct schema_extension_content
 	: seq<star<ignored>,
-		  sor<seq<opt<directives>, schema_extension_operation_type_definitions>, directives>>
+		  sor<seq<opt<directives, star<ignored>>, schema_extension_operation_type_definitions>,
+			  directives>>
 {
 };
 
-- 
2.43.0


From 76410e12958176215f0fc480df0382a3a9b0ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 40/50] fix: keep all of a description which contains escape
 sequences in the schema loader

---
 src/SchemaLoader.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index c1f313e..9b3d1b7 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -704,7 +704,7 @@ void SchemaLoader::visitObjectTypeDefinition(const peg::ast_node& objectTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -769,7 +769,7 @@ void SchemaLoader::visitInterfaceTypeDefinition(const peg::ast_node& interfaceTy
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -830,7 +830,7 @@ void SchemaLoader::visitInputObjectTypeDefinition(const peg::ast_node& inputObje
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -890,7 +890,7 @@ void SchemaLoader::visitEnumTypeDefinition(const peg::ast_node& enumTypeDefiniti
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -932,7 +932,7 @@ void SchemaLoader::visitEnumTypeExtension(const peg::ast_node& enumTypeExtension
 				[&value](const peg::ast_node& description) {
 					if (!description.children.empty())
 					{
-						value.description = description.children.front()->unescaped_view();
+						value.description = description.unescaped_view();
 					}
 				});
 
@@ -999,7 +999,7 @@ void SchemaLoader::visitScalarTypeDefinition(const peg::ast_node& scalarTypeDefi
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1038,7 +1038,7 @@ void SchemaLoader::visitUnionTypeDefinition(const peg::ast_node& unionTypeDefini
 		[&description](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				description = child.children.front()->unescaped_view();
+				description = child.unescaped_view();
 			}
 		});
 
@@ -1091,7 +1091,7 @@ void SchemaLoader::visitDirectiveDefinition(const peg::ast_node& directiveDefini
 		[&directive](const peg::ast_node& child) {
 			if (!child.children.empty())
 			{
-				directive.description = child.children.front()->unescaped_view();
+				directive.description = child.unescaped_view();
 			}
 		});
 
@@ -1177,7 +1177,7 @@ OutputFieldList SchemaLoader::getOutputFields(const peg::ast_node::children_t& f
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 			else if (child->is_type<peg::directives>())
 			{
@@ -1265,7 +1265,7 @@ InputFieldList SchemaLoader::getInputFields(const peg::ast_node::children_t& fie
 			}
 			else if (child->is_type<peg::description>() && !child->children.empty())
 			{
-				field.description = child->children.front()->unescaped_view();
+				field.description = child->unescaped_view();
 			}
 		}
 
-- 
2.43.0


From 54d76dd97fbea4abea9e73a5fabe301f196e78e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 41/50] fix: getInputIndex returned the index from before the
 input types were reordered

---
 src/SchemaLoader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SchemaLoader.cpp b/src/SchemaLoader.cpp
index 9b3d1b7..ea3c228 100644
--- a/src/SchemaLoader.cpp
+++ b/src/SchemaLoader.cpp
@@ -567,6 +567,12 @@ void SchemaLoader::reorderInputTypeDependencies()
 
 		itr = itrDependent;
 	}
+
+	// The types have moved, so update the index of each one.
+	for (size_t i = 0; i < _inputTypes.size(); ++i)
+	{
+		_inputNames[_inputTypes[i].type] = i;
+	}
 }
 
 bool SchemaLoader::isExtension(const peg::ast_node& definition) noexcept
-- 
2.43.0


From 2d046222fdd833f6b139cb1e87407948fef718e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 42/50] fix: order input types after the ones they contain in
 non-null or list fields

---
 src/RequestLoader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 362a322..5d35de2 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -857,7 +857,7 @@ void RequestLoader::reorderInputTypeDependencies() noexcept
 			std::for_each(fields.begin(),
 				fields.end(),
 				[&result](const std::shared_ptr<const schema::InputValue>& field) noexcept {
-					const auto fieldType = field->type().lock();
+					const auto fieldType = unwrapSchemaType(field->type().lock()).first;
 
 					if (fieldType->kind() == introspection::TypeKind::INPUT_OBJECT)
 					{
-- 
2.43.0


From 8fbf08ba5e6b99cd8ac25ea9e6e175e63b24ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 43/50] fix: the __schema field is never null in a client
 response

---
 src/RequestLoader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index 5d35de2..dace8cf 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1048,7 +1048,8 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	{
 		if (name == R"gql(__schema)gql"sv)
 		{
-			responseField.type = _schema->LookupType("__Schema"sv);
+			responseField.type = _schema->WrapType(introspection::TypeKind::NON_NULL,
+				_schema->LookupType("__Schema"sv));
 		}
 		else if (name == R"gql(__type)gql"sv)
 		{
-- 
2.43.0


From cbd14fef64fd6fb9374046056195c03c89f3979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 44/50] fix: merge the selection sets of repeated object fields
 in a client request

---
 include/RequestLoader.h |  2 +-
 src/RequestLoader.cpp   | 50 ++++++++++++++++++++++-------------------
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 0f1fef6..2081e2d 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -123,13 +123,13 @@ private:
 		void visitInlineFragment(const peg::ast_node& inlineFragment);
 
 		void mergeFragmentFields(ResponseFieldList&& fragmentFields) noexcept;
+		static void mergeField(ResponseFieldList& fields, ResponseField&& field) noexcept;
 
 		const SchemaLoader& _schemaLoader;
 		const FragmentDefinitionMap& _fragments;
 		const std::shared_ptr<schema::Schema>& _schema;
 		const RequestSchemaType& _type;
 
-		internal::string_view_set _names;
 		ResponseFieldList _fields;
 	};
 
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index dace8cf..c085c62 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -1022,14 +1022,6 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		alias = name;
 	}
 
-	if (!_names.emplace(alias).second)
-	{
-		// Skip fields which map to the same response name as a field we've already visited.
-		// Validation should handle merging multiple references to the same field or to
-		// compatible fields.
-		return;
-	}
-
 	ResponseField responseField;
 
 	responseField.name = alias;
@@ -1040,7 +1032,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 	if (name == R"gql(__typename)gql"sv)
 	{
 		responseField.type = _schema->LookupType("String"sv);
-		_fields.push_back(std::move(responseField));
+		mergeField(_fields, std::move(responseField));
 		return;
 	}
 
@@ -1115,7 +1107,7 @@ void RequestLoader::SelectionVisitor::visitField(const peg::ast_node& field)
 		}
 	}
 
-	_fields.push_back(std::move(responseField));
+	mergeField(_fields, std::move(responseField));
 }
 
 void RequestLoader::SelectionVisitor::visitFragmentSpread(const peg::ast_node& fragmentSpread)
@@ -1169,20 +1161,32 @@ void RequestLoader::SelectionVisitor::visitInlineFragment(const peg::ast_node& i
 void RequestLoader::SelectionVisitor::mergeFragmentFields(
 	ResponseFieldList&& fragmentFields) noexcept
 {
-	fragmentFields.erase(std::remove_if(fragmentFields.begin(),
-							 fragmentFields.end(),
-							 [this](const ResponseField& fragmentField) noexcept {
-								 return !_names.emplace(fragmentField.name).second;
-							 }),
-		fragmentFields.cend());
-
-	if (!fragmentFields.empty())
+	_fields.reserve(_fields.size() + fragmentFields.size());
+	for (auto& fragmentField : fragmentFields)
 	{
-		_fields.reserve(_fields.size() + fragmentFields.size());
-		for (auto& fragmentField : fragmentFields)
-		{
-			_fields.push_back(std::move(fragmentField));
-		}
+		mergeField(_fields, std::move(fragmentField));
+	}
+}
+
+void RequestLoader::SelectionVisitor::mergeField(
+	ResponseFieldList& fields, ResponseField&& field) noexcept
+{
+	const auto itr =
+		std::find_if(fields.begin(), fields.end(), [&field](const ResponseField& entry) noexcept {
+			return entry.name == field.name;
+		});
+
+	if (itr == fields.end())
+	{
+		fields.push_back(std::move(field));
+		return;
+	}
+
+	// This maps to the same response name as a field we've already visited, so just add any new
+	// fields from its selection set. Validation makes sure that they refer to compatible fields.
+	for (auto& child : field.children)
+	{
+		mergeField(itr->children, std::move(child));
 	}
 }
 
-- 
2.43.0


From 891d3d5c1c2b309aefaa9c1aaeef1ea918eef048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:13 +0000
Subject: [PATCH 45/50] fix: clients sent and expected the C++ name of an enum
 value instead of its name in the schema

---
 src/ClientGenerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index 5c69973..c03d413 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -484,8 +484,7 @@ using namespace )cpp"
 		for (const auto& enumValue : enumValues)
 		{
 			firstValue = false;
-			sourceFile << R"cpp(	")cpp" << SchemaLoader::getSafeCppName(enumValue->name())
-					   << R"cpp("sv,
+			sourceFile << R"cpp(	")cpp" << enumValue->name() << R"cpp("sv,
 )cpp";
 		}
 
-- 
2.43.0


From f6aef393429a246647447e91616640ac8c19b85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 46/50] fix: schemagen declared enum values with their GraphQL
 names but used their C++ names

---
 src/SchemaGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index 3b8552a..d4df82f 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -220,7 +220,7 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 				}
 
 				firstValue = false;
-				headerFile << R"cpp(	)cpp" << value.value;
+				headerFile << R"cpp(	)cpp" << value.cppValue;
 			}
 			headerFile << R"cpp(
 };
-- 
2.43.0


From 98c4dcfe6bef33dbe45102c8f3deaf647bd96776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 47/50] fix: nullable, list, built-in and nested input types
 made the variables of a client request uncompilable

---
 include/ClientGenerator.h |  1 +
 include/RequestLoader.h   |  2 ++
 src/ClientGenerator.cpp   | 24 +++++++++++++++++++-----
 src/RequestLoader.cpp     |  9 ++++++++-
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/include/ClientGenerator.h b/include/ClientGenerator.h
index 36def4f..66e611b 100644
--- a/include/ClientGenerator.h
+++ b/include/ClientGenerator.h
@@ -54,6 +54,7 @@ private:
 	void outputGetRequestImplementation(std::ostream& sourceFile) const noexcept;
 	bool outputModifiedResponseImplementation(std::ostream& sourceFile,
 		const std::string& outerScope, const ResponseField& responseField) const noexcept;
+	std::string getVariableCppType(const schema::BaseType& type) const noexcept;
 	static std::string getTypeModifierList(const TypeModifierStack& modifiers) noexcept;
 
 	const SchemaLoader _schemaLoader;
diff --git a/include/RequestLoader.h b/include/RequestLoader.h
index 2081e2d..763a671 100644
--- a/include/RequestLoader.h
+++ b/include/RequestLoader.h
@@ -80,6 +80,8 @@ public:
 	const RequestSchemaTypeList& getReferencedEnums() const noexcept;
 
 	std::string getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept;
+	std::string getInputCppType(
+		const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept;
 	static std::string getOutputCppType(
 		std::string_view outputCppType, const TypeModifierStack& modifiers) noexcept;
 
diff --git a/src/ClientGenerator.cpp b/src/ClientGenerator.cpp
index c03d413..7af82bd 100644
--- a/src/ClientGenerator.cpp
+++ b/src/ClientGenerator.cpp
@@ -279,7 +279,8 @@ static_assert(graphql::internal::MinorVersion == )cpp"
 
 		for (const auto& variable : variables)
 		{
-			headerFile << R"cpp(	)cpp" << _schemaLoader.getCppType(variable.type->name())
+			headerFile << R"cpp(	)cpp"
+					   << _requestLoader.getInputCppType(variable.type, variable.modifiers)
 					   << R"cpp( )cpp" << variable.cppName << R"cpp( {};
 )cpp";
 		}
@@ -542,8 +543,8 @@ response::Value ModifiedVariable<Variables::)cpp"
 					RequestLoader::unwrapSchemaType(inputField->type().lock());
 
 				sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << inputField->name()
-						   << R"cpp()js"s, ModifiedVariable<)cpp"
-						   << _schemaLoader.getCppType(type->name()) << R"cpp(>::serialize)cpp"
+						   << R"cpp()js"s, ModifiedVariable<)cpp" << getVariableCppType(*type)
+						   << R"cpp(>::serialize)cpp"
 						   << getTypeModifierList(modifiers) << R"cpp((std::move(inputValue.)cpp"
 						   << SchemaLoader::getSafeCppName(inputField->name()) << R"cpp()));
 )cpp";
@@ -624,8 +625,8 @@ response::Value serializeVariables(Variables&& variables)
 		for (const auto& variable : variables)
 		{
 			sourceFile << R"cpp(	result.emplace_back(R"js()cpp" << variable.name
-					   << R"cpp()js"s, ModifiedVariable<Variables::)cpp"
-					   << _schemaLoader.getCppType(variable.type->name()) << R"cpp(>::serialize)cpp"
+					   << R"cpp()js"s, ModifiedVariable<)cpp" << getVariableCppType(*variable.type)
+					   << R"cpp(>::serialize)cpp"
 					   << getTypeModifierList(variable.modifiers)
 					   << R"cpp((std::move(variables.)cpp" << variable.cppName << R"cpp()));
 )cpp";
@@ -809,6 +810,19 @@ template <>
 	return true;
 }
 
+std::string Generator::getVariableCppType(const schema::BaseType& type) const noexcept
+{
+	const auto cppType = _schemaLoader.getCppType(type.name());
+
+	// Only the input objects are declared as nested types in the Variables struct.
+	if (type.kind() == introspection::TypeKind::INPUT_OBJECT)
+	{
+		return std::string { R"cpp(Variables::)cpp" }.append(cppType);
+	}
+
+	return std::string { cppType };
+}
+
 std::string Generator::getTypeModifierList(const TypeModifierStack& modifiers) noexcept
 {
 	if (modifiers.empty())
diff --git a/src/RequestLoader.cpp b/src/RequestLoader.cpp
index c085c62..e70c2a9 100644
--- a/src/RequestLoader.cpp
+++ b/src/RequestLoader.cpp
@@ -137,10 +137,17 @@ const RequestSchemaTypeList& RequestLoader::getReferencedEnums() const noexcept
 }
 
 std::string RequestLoader::getInputCppType(const RequestSchemaType& wrappedInputType) const noexcept
+{
+	const auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
+
+	return getInputCppType(inputType, modifiers);
+}
+
+std::string RequestLoader::getInputCppType(
+	const RequestSchemaType& inputType, const TypeModifierStack& modifiers) const noexcept
 {
 	size_t templateCount = 0;
 	std::ostringstream cppType;
-	auto [inputType, modifiers] = unwrapSchemaType(RequestSchemaType { wrappedInputType });
 
 	for (auto modifier : modifiers)
 	{
-- 
2.43.0


From 786fd47969009e25bab19111c9752b03c2a0afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 48/50] fix: default values of type Float lost precision in the
 generated service

---
 src/SchemaGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SchemaGenerator.cpp b/src/SchemaGenerator.cpp
index d4df82f..38e2b97 100644
--- a/src/SchemaGenerator.cpp
+++ b/src/SchemaGenerator.cpp
@@ -37,7 +37,9 @@
 
 #include <cctype>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <limits>
 #include <regex>
 #include <sstream>
 #include <stdexcept>
@@ -1813,6 +1815,7 @@ std::string Generator::getArgumentDefaultValue(
 			argumentDefaultValue
 				<< padding
 				<< R"cpp(		entry = response::Value(static_cast<response::FloatType>()cpp"
+				<< std::setprecision(std::numeric_limits<response::FloatType>::max_digits10)
 				<< defaultValue.get<response::FloatType>() << R"cpp());
 )cpp";
 			break;
-- 
2.43.0


From 800eca667f07bcfb3a8e74ad763a55e171f45148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:09 +0000
Subject: [PATCH 49/50] fix: lists of Booleans could not be used as variables
 of a client request

---
 include/graphqlservice/GraphQLClient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/graphqlservice/GraphQLClient.h b/include/graphqlservice/GraphQLClient.h
index 4893381..190f190 100644
--- a/include/graphqlservice/GraphQLClient.h
+++ b/include/graphqlservice/GraphQLClient.h
@@ -129,7 +129,7 @@ struct ModifiedVariable
 		response::Value result { response::Type::List };
 
 		result.reserve(listValue.size());
-		std::for_each(listValue.begin(), listValue.end(), [&result](auto& value) {
+		std::for_each(listValue.begin(), listValue.end(), [&result](auto&& value) {
 			result.emplace_back(serialize<Other...>(std::move(value)));
 		});
 		listValue.clear();
-- 
2.43.0


From f4342b718b7e76aad2a2eabe12687f615c9655ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:55 +0000
Subject: [PATCH 50/50] fix: regenerate the validation sample after the schema
 loader classifies argument types

---
 samples/validation/ValidationSchema.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/samples/validation/ValidationSchema.cpp b/samples/validation/ValidationSchema.cpp
index e2ce3b5..075aa48 100644
--- a/samples/validation/ValidationSchema.cpp
+++ b/samples/validation/ValidationSchema.cpp
@@ -327,7 +327,7 @@ service::FieldResult<response::BooleanType> Dog::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Dog::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argDogCommand = service::ModifiedArgument<DogCommand>::require("dogCommand", params.arguments);
+	auto argDogCommand = service::ModifiedArgument<validation::DogCommand>::require("dogCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argDogCommand));
@@ -521,7 +521,7 @@ service::FieldResult<response::BooleanType> Cat::getDoesKnowCommand(service::Fie
 
 std::future<service::ResolverResult> Cat::resolveDoesKnowCommand(service::ResolverParams&& params)
 {
-	auto argCatCommand = service::ModifiedArgument<CatCommand>::require("catCommand", params.arguments);
+	auto argCatCommand = service::ModifiedArgument<validation::CatCommand>::require("catCommand", params.arguments);
 	std::unique_lock resolverLock(_resolverMutex);
 	auto directives = std::move(params.fieldDirectives);
 	auto result = getDoesKnowCommand(service::FieldParams(std::move(params), std::move(directives)), std::move(argCatCommand));
-- 
2.43.0

