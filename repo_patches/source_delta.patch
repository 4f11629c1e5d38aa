From 2825e638e112de65850347af4f04d11dcb2dbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 01/62] fix: optionalized must not mutate its input nor leave
 explicit undefined properties

---
 packages/io-ts-http/src/combinators.ts | 82 +++++++++++---------------
 1 file changed, 36 insertions(+), 46 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..e373908 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -3,7 +3,6 @@ import * as E from 'fp-ts/Either';
 import * as R from 'fp-ts/Record';
 import * as t from 'io-ts';
 import {
-  DefinedValues,
   Flattened,
   NestedType,
   NestedOutputType,
@@ -14,47 +13,28 @@ import {
   Simplify,
 } from './utils';
 
-const partialWithoutUndefined = <P extends t.Props>(
-  props: P,
-  name?: string,
-): t.PartialType<
-  P,
-  DefinedValues<t.TypeOfPartialProps<P>>,
-  DefinedValues<t.OutputOfPartialProps<P>>,
-  unknown
-> => {
-  const partialCodec = t.partial(props, name);
-  return new t.PartialType(
-    partialCodec.name,
-    (i): i is DefinedValues<t.TypeOfPartialProps<P>> => partialCodec.is(i),
-    (i, ctx) => {
-      return pipe(
-        partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
-      );
-    },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
-      }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
-    props,
+/**
+ * Returns `value` without the possibly-optional properties that are explicitly `undefined`.
+ * Never modifies `value` itself, which may well be an object owned by the caller.
+ */
+const withoutUndefined = (value: any, requiredProps: t.Props): any => {
+  if (value === undefined || value === null) {
+    // `t.partial` will pass these through on encode even though they are not in the type
+    return value;
+  }
+  const undefinedKeys = Object.keys(value).filter(
+    (key) =>
+      value[key] === undefined &&
+      !Object.prototype.hasOwnProperty.call(requiredProps, key),
   );
+  if (undefinedKeys.length === 0) {
+    return value;
+  }
+  const result = { ...value };
+  for (const key of undefinedKeys) {
+    delete result[key];
+  }
+  return result;
 };
 
 export const optional = <C extends t.Mixed>(codec: C): t.UnionC<[C, t.UndefinedC]> =>
@@ -75,15 +55,25 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
+  const codec = t.intersection([
     t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
       RequiredProps<P>
     >,
-    partialWithoutUndefined(
-      optionalProps,
-      name ? `optional_${name}` : undefined,
-    ) as t.PartialC<OptionalProps<P>>,
+    t.partial(optionalProps, name ? `optional_${name}` : undefined) as t.PartialC<
+      OptionalProps<P>
+    >,
   ]);
+  return new t.IntersectionType(
+    codec.name,
+    codec.is,
+    (i, ctx) =>
+      pipe(
+        codec.validate(i, ctx),
+        E.map((result) => withoutUndefined(result, requiredProps)),
+      ),
+    (a) => withoutUndefined(codec.encode(a), requiredProps),
+    codec.types,
+  );
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From 20ecdeef9a249e0f719c1131139b49fd1b2cdba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 02/62] fix: flattened codecs must not encode explicit
 undefined properties

---
 packages/io-ts-http/src/combinators.ts | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index e373908..fc3a8fd 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -123,9 +123,11 @@ export const flattened = <Props extends NestedProps>(
         }
         nested[o] = {};
         for (const i in props[o]) {
-          if ((input as {}).hasOwnProperty(i)) {
-            const codec = props[o]![i]!;
-            nested[o]![i] = codec.encode(input[i]);
+          if (Object.prototype.hasOwnProperty.call(input, i)) {
+            const encoded = props[o]![i]!.encode(input[i]);
+            if (encoded !== undefined) {
+              nested[o]![i] = encoded;
+            }
           }
         }
       }
-- 
2.43.0


From d5b168d3536fb663c32ae8283d75e504c4d63618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 03/62] fix: percent-encode path parameters when building the
 request URL

---
 packages/superagent-wrapper/src/request.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..d1117bb 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -67,7 +67,9 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
 export const substitutePathParams = (path: string, params: Record<string, string>) => {
   for (const key in params) {
     if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
+      const value = encodeURIComponent(params[key]);
+      // A replacer function, as `$` is special in a replacement string
+      path = path.replace(`{${key}}`, () => value);
     }
   }
   return path;
-- 
2.43.0


From 8af96e0b2fea3f847e1feef1a444a4c57590a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 04/62] fix: send falsy request bodies

---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index d1117bb..c06421c 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -209,7 +209,7 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From 7822f4d4a0739628c1274d6ed06723408804e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:06 +0000
Subject: [PATCH 05/62] fix: decode falsy JSON response bodies

---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index c06421c..cbfbd6e 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -130,7 +130,7 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      const bodyOrText = body ?? text;
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
-- 
2.43.0


From 366dd391aad87c2e27ab1f57177b61721e9c9547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 06/62] fix: respond with an error status when a route handler
 or middleware fails

---
 packages/express-wrapper/src/request.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..86ecc8a 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,7 +144,8 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        // Keep an error status that was already chosen, e.g. by a middleware
+        if (!res.headersSent && res.statusCode < 400) {
           res.status(500);
         }
         res.end();
-- 
2.43.0


From 3d23ebc515b9c64225892a50a689c553b5786c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 07/62] fix: do not run further routes after a failed route
 handler was answered

---
 packages/express-wrapper/src/request.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index 86ecc8a..ae9b3d7 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -149,7 +149,6 @@ export const handleRequest = (
           res.status(500);
         }
         res.end();
-        next();
         return;
       }
     },
-- 
2.43.0


From dd88721248147bbd52bfd1b0318714d3b1d60e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 08/62] fix: do not run a route handler after one of its
 middleware failed

---
 packages/express-wrapper/src/middleware.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..b93926d 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -208,9 +208,10 @@ export async function runMiddlewareChainIgnoringResults<
   res: express.Response,
 ): Promise<Input> {
   for (const middleware of chain) {
-    await new Promise((resolve, reject) => {
+    await new Promise<void>((resolve, reject) => {
+      const next = (err?: unknown) => (err !== undefined ? reject(err) : resolve());
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, next);
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From 763925fdf09dba4c58fdc305ff4d5700ca6d2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 09/62] fix: a middleware rejecting without a reason must stop
 the chain

middlewareFn passed the rejection reason on as the error, so rejecting with
undefined was taken for success and the route handler ran.
---
 packages/express-wrapper/src/middleware.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index b93926d..3bfbd00 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -34,7 +34,7 @@ export function middlewareFn<T extends {}>(fn: MiddlewareFn<T>): MiddlewareHandl
   const result: express.RequestHandler = (req, res, next: MiddlewareNextFn) => {
     fn(req, res)
       .then((result) => next(undefined, result))
-      .catch((err) => next(err));
+      .catch((err) => next(err ?? new Error('middleware rejected without a reason')));
   };
   return result as MiddlewareHandler<T>;
 }
-- 
2.43.0


From b20f60a4c95f1fccda280e79421e7914e46954c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 10/62] fix: do not swap the minimum and maximum of a codec's
 schema

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..d90b03e 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -300,8 +300,8 @@ export function schemaToOpenAPI(
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
     const minLength = jsdoc?.tags?.minLength ?? schema.minLength;
     const pattern = jsdoc?.tags?.pattern ?? schema.pattern;
-    const minimum = jsdoc?.tags?.minimum ?? schema.maximum;
-    const maximum = jsdoc?.tags?.maximum ?? schema.minimum;
+    const minimum = jsdoc?.tags?.minimum ?? schema.minimum;
+    const maximum = jsdoc?.tags?.maximum ?? schema.maximum;
     const minItems = jsdoc?.tags?.minItems ?? schema.minItems;
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
-- 
2.43.0


From bebd14777f4ac4640eda6456d044f95c24ab1566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 11/62] fix: keep documented values that are zero or false

---
 packages/openapi-generator/src/openapi.ts | 42 +++++++++++++----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index d90b03e..c731260 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -80,11 +80,11 @@ export function schemaToOpenAPI(
         }
 
         const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
-        const isArrayExample = example && Array.isArray(example);
+        const isArrayExample = Array.isArray(example);
 
         const siblings = {
           ...rest,
-          ...(!isArrayExample && example ? { example } : {}),
+          ...(!isArrayExample && example !== undefined ? { example } : {}),
         };
 
         // Handle case where innerSchema is a $ref with siblings
@@ -105,8 +105,8 @@ export function schemaToOpenAPI(
 
         return {
           type: 'array',
-          ...(minItems ? { minItems } : {}),
-          ...(maxItems ? { maxItems } : {}),
+          ...(minItems !== undefined ? { minItems } : {}),
+          ...(maxItems !== undefined ? { maxItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
@@ -276,8 +276,11 @@ export function schemaToOpenAPI(
    * @param fieldValue The value to parse
    * @returns the parsed value
    */
-  const parseField = (schema: Schema, fieldValue: string): any => {
-    if (schema.type === 'number' || schema.type === 'integer') {
+  const parseField = (schema: Schema, fieldValue: any): any => {
+    if (typeof fieldValue !== 'string') {
+      // Already a value, not the text of a JSDoc tag
+      return fieldValue;
+    } else if (schema.type === 'number' || schema.type === 'integer') {
       return Number(fieldValue);
     } else if (schema.type === 'boolean') {
       return fieldValue === 'true';
@@ -285,12 +288,15 @@ export function schemaToOpenAPI(
       return null;
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
-      return fieldValue?.replace(/^"(.*)"$/, '$1');
+      return fieldValue.replace(/^"(.*)"$/, '$1');
     } else {
       return fieldValue;
     }
   };
 
+  // Zero and `false` are values like any other; an empty JSDoc tag has no value
+  const isSet = (value: unknown): boolean => value !== undefined && value !== '';
+
   function buildDefaultOpenAPIObject(schema: Schema): OpenAPIV3.SchemaObject {
     const emptyBlock: Block = { description: '', tags: [], source: [], problems: [] };
     const jsdoc = parseCommentBlock(schema.comment ?? emptyBlock);
@@ -326,22 +332,22 @@ export function schemaToOpenAPI(
     const description = schema.comment?.description ?? schema.description;
 
     const defaultOpenAPIObject = {
-      ...(defaultValue ? { default: parseField(schema, defaultValue) } : {}),
+      ...(isSet(defaultValue) ? { default: parseField(schema, defaultValue) } : {}),
       ...(deprecated ? { deprecated: true } : {}),
       ...(description ? { description } : {}),
-      ...(example ? { example: parseField(schema, example) } : {}),
-      ...(maxLength ? { maxLength: Number(maxLength) } : {}),
-      ...(minLength ? { minLength: Number(minLength) } : {}),
+      ...(isSet(example) ? { example: parseField(schema, example) } : {}),
+      ...(isSet(maxLength) ? { maxLength: Number(maxLength) } : {}),
+      ...(isSet(minLength) ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum ? { minimum: Number(minimum) } : {}),
-      ...(maximum ? { maximum: Number(maximum) } : {}),
-      ...(minItems ? { minItems: Number(minItems) } : {}),
-      ...(maxItems ? { maxItems: Number(maxItems) } : {}),
-      ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-      ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
+      ...(isSet(minimum) ? { minimum: Number(minimum) } : {}),
+      ...(isSet(maximum) ? { maximum: Number(maximum) } : {}),
+      ...(isSet(minItems) ? { minItems: Number(minItems) } : {}),
+      ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
+      ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
+      ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
       ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
       ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
-      ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
+      ...(isSet(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
       ...(uniqueItems ? { uniqueItems: true } : {}),
       ...(readOnly ? { readOnly: true } : {}),
       ...(writeOnly ? { writeOnly: true } : {}),
-- 
2.43.0


From 37238a64cef3fb7033b306b971d6f3132991864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 12/62] fix: flag tags need no value (@uniqueItems, @readOnly,
 ...)

---
 packages/openapi-generator/src/openapi.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index c731260..65c25a9 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -297,6 +297,9 @@ export function schemaToOpenAPI(
   // Zero and `false` are values like any other; an empty JSDoc tag has no value
   const isSet = (value: unknown): boolean => value !== undefined && value !== '';
 
+  // Flags are set by the mere presence of their JSDoc tag
+  const isFlagged = (value: unknown): boolean => value !== undefined && value !== false;
+
   function buildDefaultOpenAPIObject(schema: Schema): OpenAPIV3.SchemaObject {
     const emptyBlock: Block = { description: '', tags: [], source: [], problems: [] };
     const jsdoc = parseCommentBlock(schema.comment ?? emptyBlock);
@@ -345,12 +348,12 @@ export function schemaToOpenAPI(
       ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
       ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
       ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
-      ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
-      ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
+      ...(isFlagged(exclusiveMinimum) ? { exclusiveMinimum: true } : {}),
+      ...(isFlagged(exclusiveMaximum) ? { exclusiveMaximum: true } : {}),
       ...(isSet(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
-      ...(uniqueItems ? { uniqueItems: true } : {}),
-      ...(readOnly ? { readOnly: true } : {}),
-      ...(writeOnly ? { writeOnly: true } : {}),
+      ...(isFlagged(uniqueItems) ? { uniqueItems: true } : {}),
+      ...(isFlagged(readOnly) ? { readOnly: true } : {}),
+      ...(isFlagged(writeOnly) ? { writeOnly: true } : {}),
       ...(format ? { format } : {}),
       ...(title ? { title } : {}),
       ...(isPrivate ? { 'x-internal': true } : isPublic ? { 'x-internal': false } : {}),
-- 
2.43.0


From 0d4252ce556b8ae7c7a64bf0f70e7facd85835b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 13/62] fix: tags of a comment take precedence over those of
 the comments below it

---
 packages/openapi-generator/src/comments.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index bd8f135..f4b2153 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -150,8 +150,10 @@ export function combineComments(schema: Schema): Block | undefined {
       }
     }
 
-    result.problems.push(...comment.problems);
-    result.source.push(...comment.source);
+    // Tags are read from the source lines with the last one winning, so the lines of the
+    // higher level comment have to come after those of the lower level ones
+    result.problems.unshift(...comment.problems);
+    result.source.unshift(...comment.source);
   }
 
   return result;
-- 
2.43.0


From 4d8a6c3b68ea9782ff80ee29fee34011f1d878ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 14/62] fix: read tag values and examples as they are written

---
 packages/openapi-generator/src/jsdoc.ts | 26 +++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/jsdoc.ts b/packages/openapi-generator/src/jsdoc.ts
index 6bf698f..a42ddc6 100644
--- a/packages/openapi-generator/src/jsdoc.ts
+++ b/packages/openapi-generator/src/jsdoc.ts
@@ -1,4 +1,4 @@
-import type { Block } from 'comment-parser';
+import type { Block, Line } from 'comment-parser';
 
 type Tags = Record<Exclude<string, 'example'>, string> & { example?: any };
 
@@ -8,6 +8,19 @@ export type JSDoc = {
   tags?: Tags;
 };
 
+/** The text of a line following its tag (if any), as it is written */
+function lineText({ tokens }: Line): string {
+  return [
+    tokens.type,
+    tokens.postType,
+    tokens.name,
+    tokens.postName,
+    tokens.description,
+  ]
+    .join('')
+    .trim();
+}
+
 export function parseCommentBlock(comment: Block): JSDoc {
   let summary: string = '';
   let description: string = '';
@@ -16,28 +29,29 @@ export function parseCommentBlock(comment: Block): JSDoc {
 
   for (const line of comment.source) {
     if (writingExample) {
-      tags['example'] = `${tags['example']}\n${line.source.split('*')[1]?.trim()}`;
+      tags['example'] = `${tags['example']}\n${lineText(line)}`;
       try {
         tags['example'] = JSON.parse(tags['example']);
         writingExample = false;
       } catch (e) {
-        if (line.source.endsWith('*/'))
+        if (line.tokens.end === '*/')
           throw new Error('@example contains invalid JSON');
         else continue;
       }
     } else if (line.tokens.tag !== undefined && line.tokens.tag.length > 0) {
       if (line.tokens.tag === '@example') {
-        tags['example'] = line.source.split('@example')[1]?.trim();
+        tags['example'] = lineText(line);
         if (tags['example'].startsWith('{') || tags['example'].startsWith('[')) {
           try {
             tags['example'] = JSON.parse(tags['example']);
           } catch (e) {
+            if (line.tokens.end === '*/')
+              throw new Error('@example contains invalid JSON');
             writingExample = true;
           }
         }
       } else {
-        tags[line.tokens.tag.slice(1)] =
-          `${line.tokens.name} ${line.tokens.description}`.trim();
+        tags[line.tokens.tag.slice(1)] = lineText(line);
       }
     } else if (summary.length === 0) {
       if (line.tokens.description === '') {
-- 
2.43.0


From 263f6a0f8f2b3a6f6fd3948b7d54c072eac82aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 15/62] fix: locate comments after characters outside the basic
 multilingual plane

---
 packages/openapi-generator/src/comments.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index f4b2153..5dcf9b0 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -19,7 +19,8 @@ function byteOffsetToCharOffset(str: string, byteOffset: number): number {
     const charBytes = Buffer.byteLength(char, 'utf8');
     if (byteCount + charBytes > byteOffset) break;
     byteCount += charBytes;
-    charCount++;
+    // Characters outside the basic multilingual plane take two UTF-16 code units
+    charCount += char.length;
   }
 
   return charCount;
-- 
2.43.0


From fdbf37da3ed460519242120f66f1d9f83b844e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 16/62] fix: locate comments in files starting with a byte
 order mark

---
 packages/openapi-generator/src/sourceFile.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/openapi-generator/src/sourceFile.ts b/packages/openapi-generator/src/sourceFile.ts
index fa639a4..d1071a0 100644
--- a/packages/openapi-generator/src/sourceFile.ts
+++ b/packages/openapi-generator/src/sourceFile.ts
@@ -19,6 +19,9 @@ export async function parseSource(
   path: string,
   src: string,
 ): Promise<SourceFile | undefined> {
+  // The parser does not count a byte order mark in its offsets
+  src = src.replace(/^\uFEFF/, '');
+
   try {
     // Parse an empty string to get the last span
     const lastSpan = swc.parseSync('');
-- 
2.43.0


From a7aeea2fe33d1c94a0ae93daab242af2378bcd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 17/62] fix: document a declaration with the comment next to
 it, also when it comes first

---
 packages/openapi-generator/src/symbol.ts | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..4ef1cb3 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -108,6 +108,17 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   return result;
 }
 
+function declarationComment(
+  src: string,
+  srcSpanStart: number,
+  prev: swc.ModuleItem | undefined,
+  decl: swc.Declaration | swc.ExportDeclaration,
+): Block | undefined {
+  const start = prev !== undefined ? prev.span.end : srcSpanStart;
+  // Of several comment blocks, the one next to the declaration documents it
+  return leadingComment(src, srcSpanStart, start, decl.span.start).pop();
+}
+
 function parseDeclaration(
   src: string,
   srcSpanStart: number,
@@ -125,10 +136,7 @@ function parseDeclaration(
     decl.type === 'ExportDeclaration' ? decl.declaration : decl;
 
   if (subDeclaration.type === 'VariableDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comment = declarationComment(src, srcSpanStart, prev, decl);
     subDeclaration.declarations.forEach((d) => {
       if (
         d.type === 'VariableDeclarator' &&
@@ -151,10 +159,7 @@ function parseDeclaration(
       }
     });
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
-    const comment =
-      prev !== undefined
-        ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
-        : undefined;
+    const comment = declarationComment(src, srcSpanStart, prev, decl);
     // Construct a synthetic object declaration
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
       return {
-- 
2.43.0


From 1eb02870418ab02044b7bbde6517e8831bdd1666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 18/62] fix: attach comments around shorthand and spread
 properties to the right property

---
 packages/openapi-generator/src/codec.ts | 30 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 86f2e1c..d4484fb 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -201,9 +201,21 @@ function parseObjectExpression(
     required: [],
   };
   let commentStartIdx = spanStart;
+  // The comment in front of a property, which starts and ends at the given offsets
+  const nextComment = (start: number, end: number) => {
+    const comments = leadingComment(
+      source.src,
+      source.span.start,
+      commentStartIdx,
+      start,
+    );
+    commentStartIdx = end;
+    return comments[comments.length - 1];
+  };
   for (const property of object.properties) {
     if (property.type === 'Identifier') {
       const name = property.value;
+      const comment = nextComment(property.span.start, property.span.end);
       const initE = findSymbolInitializer(project, source, name);
       if (E.isLeft(initE)) {
         return initE;
@@ -213,10 +225,12 @@ function parseObjectExpression(
       if (E.isLeft(valueE)) {
         return valueE;
       }
-      result.properties[name] = valueE.right;
+      result.properties[name] =
+        comment !== undefined ? { ...valueE.right, comment } : valueE.right;
       result.required.push(name);
       continue;
     } else if (property.type === 'SpreadElement') {
+      commentStartIdx = (property.arguments as swc.Expression & swc.HasSpan).span.end;
       const schemaE = parsePlainInitializer(project, source, property.arguments);
       if (E.isLeft(schemaE)) {
         return schemaE;
@@ -253,14 +267,10 @@ function parseObjectExpression(
     ) {
       return errorLeft(`Unimplemented property key type ${property.key.type}`);
     }
-    const commentEndIdx = property.key.span.start;
-    const comments = leadingComment(
-      source.src,
-      source.span.start,
-      commentStartIdx,
-      commentEndIdx,
+    const comment = nextComment(
+      property.key.span.start,
+      (property.value as swc.HasSpan).span.end,
     );
-    commentStartIdx = (property.value as swc.HasSpan).span.end;
 
     let name: string = '';
     if (property.key.type === 'Computed') {
@@ -301,9 +311,7 @@ function parseObjectExpression(
       return valueE;
     }
     result.properties[name] =
-      comments.length > 0
-        ? { ...valueE.right, comment: comments[comments.length - 1] }
-        : valueE.right;
+      comment !== undefined ? { ...valueE.right, comment } : valueE.right;
     result.required.push(String(name));
   }
   return E.right(result);
-- 
2.43.0


From fdac7841bd139bc4720111590a39ef17a34cd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 19/62] fix: keep the comment of a codec used as a shorthand
 property

---
 packages/openapi-generator/src/codec.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index d4484fb..d8c438a 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -215,16 +215,17 @@ function parseObjectExpression(
   for (const property of object.properties) {
     if (property.type === 'Identifier') {
       const name = property.value;
-      const comment = nextComment(property.span.start, property.span.end);
+      const ownComment = nextComment(property.span.start, property.span.end);
       const initE = findSymbolInitializer(project, source, name);
       if (E.isLeft(initE)) {
         return initE;
       }
-      const [newSourceFile, init] = initE.right;
+      const [newSourceFile, init, initComment] = initE.right;
       const valueE = parsePlainInitializer(project, newSourceFile, init);
       if (E.isLeft(valueE)) {
         return valueE;
       }
+      const comment = ownComment ?? initComment;
       result.properties[name] =
         comment !== undefined ? { ...valueE.right, comment } : valueE.right;
       result.required.push(name);
-- 
2.43.0


From 24adf24fb3f2e74cb9da69008ba0659a4af5e222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 20/62] fix: emit each component once when declarations share a
 name

---
 packages/openapi-generator/src/cli.ts | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a51f8b7..f39c6b3 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -157,35 +157,29 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentLocations: Record<string, string> = {};
     const componentCollisionCounters: Record<string, number> = {};
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
     // Helper to generate unique component names (name, name1, name2, ...)
     const getUniqueComponentName = (name: string): string => {
-      if (components[name] === undefined) {
-        return name;
+      let uniqueName = name;
+      while (components[uniqueName] !== undefined) {
+        const counter = (componentCollisionCounters[name] ?? 0) + 1;
+        componentCollisionCounters[name] = counter;
+        uniqueName = `${name}${counter}`;
       }
-      const counter = (componentCollisionCounters[name] ?? 0) + 1;
-      componentCollisionCounters[name] = counter;
-      return `${name}${counter}`;
+      return uniqueName;
     };
 
     let schema: Schema | undefined;
     while (((schema = queue.pop()), schema !== undefined)) {
       const refs = getRefs(schema, project.getTypes());
       for (const ref of refs) {
-        if (
-          components[ref.name] !== undefined &&
-          componentLocations[ref.name] === ref.location
-        ) {
+        if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
           continue;
         }
 
-        const componentName =
-          components[ref.name] !== undefined
-            ? getUniqueComponentName(ref.name)
-            : ref.name;
+        const componentName = getUniqueComponentName(ref.name);
 
         // Track the mapping: location -> originalName -> finalComponentName
         if (componentNameMapping[ref.location] === undefined) {
@@ -247,7 +241,6 @@ const app = command({
         }
 
         components[componentName] = codecE.right;
-        componentLocations[componentName] = ref.location;
         queue.push(codecE.right);
       }
     }
-- 
2.43.0


From b0e860b6eaaa8e06fb0252e49575e66ca607ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 21/62] fix: look up what a reference refers to in the file it
 points to

---
 packages/openapi-generator/src/codec.ts       | 28 ++++---------------
 packages/openapi-generator/src/resolveInit.ts | 28 +++++++++++++++++++
 packages/openapi-generator/src/route.ts       |  8 ++----
 3 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index d8c438a..6e87fc4 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,7 @@ import { leadingComment } from './comments';
 import type { Object, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findRefInitializer, findSymbolInitializer } from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -238,7 +238,7 @@ function parseObjectExpression(
       }
       let schema = schemaE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
+        const realInitE = findRefInitializer(project, schema);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -281,7 +281,7 @@ function parseObjectExpression(
       }
       let schema = valueE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
+        const realInitE = findRefInitializer(project, schema);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -336,7 +336,7 @@ function parseArrayExpression(
     if (element.spread) {
       let init = valueE.right;
       if (init.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, init.name);
+        const realInitE = findRefInitializer(project, init);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -379,7 +379,7 @@ function parseTemplateLiteral(
     ) {
       return E.right(String(schema.enum[0]));
     } else if (schema.type === 'ref') {
-      const realInitE = findSymbolInitializer(project, source, schema.name);
+      const realInitE = findRefInitializer(project, schema);
       if (E.isLeft(realInitE)) {
         return realInitE;
       }
@@ -541,23 +541,7 @@ export function parseCodecInitializer(
       if (schema.type !== 'ref') {
         return E.right(schema);
       } else {
-        let refSource = project.get(schema.location);
-
-        if (refSource === undefined) {
-          // schema.location might be a package name -> need to resolve the path from the project types
-          const path = project.getTypes()[schema.name];
-          if (path === undefined)
-            return errorLeft(
-              `Cannot find external codec '${schema.name}' from module '${schema.location}'. ` +
-                `To fix this, add the codec definition to your codec config file. ` +
-                `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
-            );
-          refSource = project.get(path);
-          if (refSource === undefined) {
-            return errorLeft(`Cannot find '${schema.name}' from '${schema.location}'`);
-          }
-        }
-        const initE = findSymbolInitializer(project, refSource, schema.name);
+        const initE = findRefInitializer(project, schema);
         if (E.isLeft(initE)) {
           return initE;
         }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..06f6ab8 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -3,6 +3,7 @@ import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
 import { dirname } from 'node:path';
 
+import type { Reference } from './ir';
 import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
@@ -92,6 +93,33 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+/**
+ * Finds the initializer of what a reference refers to, in the file it points to.
+ */
+export function findRefInitializer(
+  project: Project,
+  ref: Reference,
+): E.Either<string, ResolvedInitializer> {
+  let refSource = project.get(ref.location);
+
+  if (refSource === undefined) {
+    // ref.location might be a package name -> need to resolve the path from the project types
+    const path = project.getTypes()[ref.name];
+    if (path === undefined)
+      return errorLeft(
+        `Cannot find external codec '${ref.name}' from module '${ref.location}'. ` +
+          `To fix this, add the codec definition to your codec config file. ` +
+          `See: https://github.com/BitGo/api-ts/tree/master/packages/openapi-generator#4-defining-custom-codecs`,
+      );
+    refSource = project.get(path);
+    if (refSource === undefined) {
+      return errorLeft(`Cannot find '${ref.name}' from '${ref.location}'`);
+    }
+  }
+
+  return findSymbolInitializer(project, refSource, ref.name);
+}
+
 export function resolveLiteralOrIdentifier(
   project: Project,
   sourceFile: SourceFile,
diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..5a84d85 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -4,7 +4,7 @@ import * as E from 'fp-ts/Either';
 import { parseCodecInitializer } from './codec';
 import type { CombinedType, Schema } from './ir';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findRefInitializer } from './resolveInit';
 import { errorLeft } from './error';
 
 export type Parameter = {
@@ -34,11 +34,7 @@ function derefRequestSchema(
   schema: Schema,
 ): E.Either<string, Schema> {
   if (schema.type === 'ref') {
-    const sourceFile = project.get(schema.location);
-    if (sourceFile === undefined) {
-      return errorLeft(`Could not find '${schema.name}' from '${schema.location}'`);
-    }
-    const initE = findSymbolInitializer(project, sourceFile, schema.name);
+    const initE = findRefInitializer(project, schema);
     if (E.isLeft(initE)) {
       return initE;
     }
-- 
2.43.0


From 247c8234dfb4a3e23cb27552b2e78212dc3c82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 22/62] fix: resolve codecs that are exported or re-exported
 under another name

---
 packages/openapi-generator/src/cli.ts         | 32 ++++++++++++------
 packages/openapi-generator/src/codec.ts       | 14 +++++---
 packages/openapi-generator/src/resolveInit.ts | 33 ++++++++++++++++++-
 3 files changed, 64 insertions(+), 15 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index f39c6b3..fd79fce 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -15,7 +15,7 @@ import type { Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findSymbolInitializer } from './resolveInit';
+import { findDeclaredName, findRefInitializer } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -160,6 +160,14 @@ const app = command({
     const componentCollisionCounters: Record<string, number> = {};
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
+    // Track the mapping: location -> originalName -> finalComponentName
+    const mapComponentName = (location: string, name: string, componentName: string) => {
+      componentNameMapping[location] = {
+        ...componentNameMapping[location],
+        [name]: componentName,
+      };
+    };
+
     // Helper to generate unique component names (name, name1, name2, ...)
     const getUniqueComponentName = (name: string): string => {
       let uniqueName = name;
@@ -179,21 +187,13 @@ const app = command({
           continue;
         }
 
-        const componentName = getUniqueComponentName(ref.name);
-
-        // Track the mapping: location -> originalName -> finalComponentName
-        if (componentNameMapping[ref.location] === undefined) {
-          componentNameMapping[ref.location] = {};
-        }
-        componentNameMapping[ref.location]![ref.name] = componentName;
-
         const sourceFile = project.get(ref.location);
         if (sourceFile === undefined) {
           logError(`Could not find '${ref.name}' from '${ref.location}'`);
           process.exit(1);
         }
 
-        const initE = findSymbolInitializer(project, sourceFile, ref.name);
+        const initE = findRefInitializer(project, ref);
         if (E.isLeft(initE)) {
           logError(
             `Could not find symbol '${ref.name}' in '${ref.location}': ${initE.left}`,
@@ -229,6 +229,18 @@ const app = command({
           process.exit(1);
         }
 
+        // The same declaration may be referred to under several names
+        const declaredName = findDeclaredName(newSourceFile, init) ?? ref.name;
+        const knownComponentName =
+          componentNameMapping[newSourceFile.path]?.[declaredName];
+        const componentName =
+          knownComponentName ?? getUniqueComponentName(declaredName);
+        mapComponentName(ref.location, ref.name, componentName);
+        mapComponentName(newSourceFile.path, declaredName, componentName);
+        if (knownComponentName !== undefined) {
+          continue;
+        }
+
         const codecE = parseCodecInitializer(project, newSourceFile, init);
         if (E.isLeft(codecE)) {
           logError(
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 6e87fc4..4a816c4 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,7 @@ import { leadingComment } from './comments';
 import type { Object, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findRefInitializer, findSymbolInitializer } from './resolveInit';
+import { findRefInitializer, findRefName, findSymbolInitializer } from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -44,11 +44,11 @@ function codecIdentifier(
     if (E.isLeft(initE)) {
       return initE;
     }
-    const [newSourceFile] = initE.right;
+    const [newSourceFile, newInit] = initE.right;
 
     return E.right({
       type: 'ref',
-      name: imp.importedName,
+      name: findRefName(newSourceFile, newInit, imp.importedName),
       location: newSourceFile.path,
     });
   } else if (id.type === 'MemberExpression') {
@@ -115,7 +115,13 @@ function codecIdentifier(
         return newInitE;
       }
 
-      return E.right({ type: 'ref', name, location: newInitE.right[0].path });
+      const [newSourceFile, newInit] = newInitE.right;
+
+      return E.right({
+        type: 'ref',
+        name: findRefName(newSourceFile, newInit, name),
+        location: newSourceFile.path,
+      });
     }
 
     // Parse member expressions that come from `import { foo } from 'foo'` imports
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 06f6ab8..ae91534 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -117,7 +117,38 @@ export function findRefInitializer(
     }
   }
 
-  return findSymbolInitializer(project, refSource, ref.name);
+  const initE = findSymbolInitializer(project, refSource, ref.name);
+  return E.isRight(initE)
+    ? initE
+    : findExportedDeclaration(project, refSource, ref.name);
+}
+
+/**
+ * The name of a declaration, which may be exported and imported under other names.
+ */
+export function findDeclaredName(
+  sourceFile: SourceFile,
+  init: swc.Expression,
+): string | undefined {
+  return sourceFile.symbols.declarations.find((d) => d.init === init)?.name;
+}
+
+/**
+ * The name under which a declaration imported as `importedName`, possibly through other
+ * files that rename it, is found in the file that declares it.
+ */
+export function findRefName(
+  sourceFile: SourceFile,
+  init: swc.Expression,
+  importedName: string,
+): string {
+  const { declarations, exports } = sourceFile.symbols;
+  const isFoundAsImported = declarations.some((d) => d.name === importedName)
+    ? declarations.some((d) => d.name === importedName && d.init === init)
+    : exports.some((e) => e.exportedName === importedName);
+  return isFoundAsImported
+    ? importedName
+    : findDeclaredName(sourceFile, init) ?? importedName;
 }
 
 export function resolveLiteralOrIdentifier(
-- 
2.43.0


From 62e7dd0a9dfbc6cf8757864f01c73b50e69002be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 23/62] fix: look up codecs of a package in that package, and
 fail if there are none

---
 packages/openapi-generator/src/cli.ts         | 14 ++++-------
 packages/openapi-generator/src/project.ts     | 13 +++++++++--
 packages/openapi-generator/src/ref.ts         | 23 ++++++++++++-------
 packages/openapi-generator/src/resolveInit.ts | 16 +++++++++++--
 4 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index fd79fce..35bbb57 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -8,7 +8,7 @@ import type { Expression } from '@swc/core';
 import type { OpenAPIV3 } from 'openapi-types';
 
 import { parseApiSpec, parseApiSpecComment } from './apiSpec';
-import { getRefs } from './ref';
+import { getUnresolvedRefs } from './ref';
 import { convertRoutesToOpenAPI } from './openapi';
 import type { Route } from './route';
 import type { Schema } from './ir';
@@ -181,18 +181,12 @@ const app = command({
 
     let schema: Schema | undefined;
     while (((schema = queue.pop()), schema !== undefined)) {
-      const refs = getRefs(schema, project.getTypes());
+      const refs = getUnresolvedRefs(schema);
       for (const ref of refs) {
         if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
           continue;
         }
 
-        const sourceFile = project.get(ref.location);
-        if (sourceFile === undefined) {
-          logError(`Could not find '${ref.name}' from '${ref.location}'`);
-          process.exit(1);
-        }
-
         const initE = findRefInitializer(project, ref);
         if (E.isLeft(initE)) {
           logError(
@@ -204,8 +198,8 @@ const app = command({
 
         if (init === null) {
           console.log({ ref });
-          let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${ref.location}'`;
-          if (ref.location.includes('/node_modules/io-ts-types/')) {
+          let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${newSourceFile.path}'`;
+          if (newSourceFile.path.includes('/node_modules/io-ts-types/')) {
             errorMessage += `
               It looks like this codec comes from io-ts-types. Try importing directly from io-ts-types instead:
 
diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 1075690..856db56 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -18,6 +18,7 @@ export class Project {
   private types: Record<string, string>;
   private typeCollisionCounters: Record<string, number>;
   private visitedPackages: Set<string>;
+  private packageEntryPoints: Record<string, string>;
 
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
@@ -26,6 +27,7 @@ export class Project {
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
+    this.packageEntryPoints = {};
   }
 
   add(path: string, sourceFile: SourceFile): void {
@@ -99,8 +101,11 @@ export class Project {
             }
 
             const entryPoint = this.resolveEntryPoint(baseDir, sym.from);
-            if (E.isRight(entryPoint) && !this.has(entryPoint.right)) {
-              queue.push(entryPoint.right);
+            if (E.isRight(entryPoint)) {
+              this.packageEntryPoints[sym.from] ??= entryPoint.right;
+              if (!this.has(entryPoint.right)) {
+                queue.push(entryPoint.right);
+              }
             }
           } else {
             const absImportPathE = this.resolve(baseDir, sym.from);
@@ -185,6 +190,10 @@ export class Project {
     return this.knownImports[baseKey]?.[name];
   }
 
+  getPackageEntryPoint(packageName: string): string | undefined {
+    return this.packageEntryPoints[packageName];
+  }
+
   getTypes() {
     return this.types;
   }
diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5e10ca4..1e6aff5 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -2,33 +2,40 @@ import type { Schema, Reference } from './ir';
 import fs from 'fs';
 
 export function getRefs(schema: Schema, typeMap: Record<string, string>): Reference[] {
-  if (schema.type === 'ref') {
-    if (!fs.existsSync(schema.location)) {
+  return getUnresolvedRefs(schema).flatMap((ref) => {
+    if (!fs.existsSync(ref.location)) {
       // The location is a node module - we need to populate the location here
-      const newPath = typeMap[schema.name];
+      const newPath = typeMap[ref.name];
       if (!newPath) {
         return [];
       }
 
-      return [{ ...schema, location: newPath }];
+      return [{ ...ref, location: newPath }];
     }
+    return [ref];
+  });
+}
+
+/** The references in a schema, located by the name of a node module or the path of a file */
+export function getUnresolvedRefs(schema: Schema): Reference[] {
+  if (schema.type === 'ref') {
     return [schema];
   } else if (schema.type === 'array') {
-    return getRefs(schema.items, typeMap);
+    return getUnresolvedRefs(schema.items);
   } else if (
     schema.type === 'intersection' ||
     schema.type === 'union' ||
     schema.type === 'tuple'
   ) {
     return schema.schemas.reduce<Reference[]>((acc, member) => {
-      return [...acc, ...getRefs(member, typeMap)];
+      return [...acc, ...getUnresolvedRefs(member)];
     }, []);
   } else if (schema.type === 'object') {
     return Object.values(schema.properties).reduce<Reference[]>((acc, member) => {
-      return [...acc, ...getRefs(member, typeMap)];
+      return [...acc, ...getUnresolvedRefs(member)];
     }, []);
   } else if (schema.type === 'record') {
-    return getRefs(schema.codomain, typeMap);
+    return getUnresolvedRefs(schema.codomain);
   } else {
     return [];
   }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index ae91534..fb3f96f 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -103,8 +103,20 @@ export function findRefInitializer(
   let refSource = project.get(ref.location);
 
   if (refSource === undefined) {
-    // ref.location might be a package name -> need to resolve the path from the project types
-    const path = project.getTypes()[ref.name];
+    // ref.location might be a package name
+    const packageEntryPoint = project.getPackageEntryPoint(ref.location);
+    const packageSource =
+      packageEntryPoint !== undefined ? project.get(packageEntryPoint) : undefined;
+    if (packageSource !== undefined) {
+      const exportE = findExportedDeclaration(project, packageSource, ref.name);
+      if (E.isRight(exportE)) {
+        return exportE;
+      }
+    }
+
+    // that could not be found -> need to resolve the path from the project types
+    const path =
+      packageSource === undefined ? project.getTypes()[ref.name] : undefined;
     if (path === undefined)
       return errorLeft(
         `Cannot find external codec '${ref.name}' from module '${ref.location}'. ` +
-- 
2.43.0


From b0ca0c44bf5380cf5837c8d6302e021aa3501561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:22 +0000
Subject: [PATCH 24/62] fix: print nothing but the document on the output
 stream

---
 packages/openapi-generator/src/cli.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 35bbb57..7071f50 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -197,7 +197,6 @@ const app = command({
         const [newSourceFile, init, comment] = initE.right;
 
         if (init === null) {
-          console.log({ ref });
           let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${newSourceFile.path}'`;
           if (newSourceFile.path.includes('/node_modules/io-ts-types/')) {
             errorMessage += `
-- 
2.43.0


From 43b440c50c8ec0400ac87a2aedd3113ba5925626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 25/62] fix: keep every alternative of a union with undefined

---
 packages/openapi-generator/src/openapi.ts | 31 +++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 65c25a9..3f37c47 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -142,24 +142,27 @@ export function schemaToOpenAPI(
         let nullable = false;
         let oneOf: (OpenAPIV3.SchemaObject | OpenAPIV3.ReferenceObject)[] = [];
 
-        // If there are two schemas and one of the schemas is undefined, that means the union is a case of `optional` type
-        const undefinedSchema = schema.schemas.find((s) => s.type === 'undefined');
-        const nonUndefinedSchema = schema.schemas.find((s) => s.type !== 'undefined');
+        // If one of the schemas is undefined, that means the union is a case of `optional` type
+        const nonUndefinedSchemas = schema.schemas.filter(
+          (s) => s.type !== 'undefined',
+        );
         // If nullSchema exists, that means that the union is also nullable
         const nullSchema = schema.schemas.find((s) => s.type === 'null');
 
         // If any schema exists and it is in union with another schema - we can remove the any schema as an optimization
         const unknownSchema = schema.schemas.find((s) => s.type === 'any');
 
-        // and we can just return the other schema (while attaching the comment to that schema)
+        // and we can just return the other schemas (while attaching the comment to them)
         const isOptional =
-          schema.schemas.length >= 2 && undefinedSchema && nonUndefinedSchema;
+          nonUndefinedSchemas.length > 0 &&
+          nonUndefinedSchemas.length < schema.schemas.length;
         if (isOptional) {
           return schemaToOpenAPI(
             {
-              ...nonUndefinedSchema,
+              ...(nonUndefinedSchemas.length === 1
+                ? nonUndefinedSchemas[0]!
+                : { type: 'union', schemas: nonUndefinedSchemas }),
               comment: schema.comment,
-              ...(nullSchema ? { nullable: true } : {}),
             },
             componentNameMapping,
           );
@@ -367,6 +370,15 @@ export function schemaToOpenAPI(
   return openAPIObject;
 }
 
+// A parameter that may be left out has no way to be null other than that
+function withoutNullIfOptional(schema: Schema): Schema {
+  if (schema.type !== 'union' || !schema.schemas.some((s) => s.type === 'undefined')) {
+    return schema;
+  }
+  const schemas = schema.schemas.filter((s) => s.type !== 'null');
+  return schemas.length > 1 ? { ...schema, schemas } : schema;
+}
+
 function routeToOpenAPI(
   route: Route,
   componentNameMapping?: ComponentNameMapping,
@@ -437,7 +449,10 @@ function routeToOpenAPI(
         : {}),
       parameters: route.parameters.map((p) => {
         // Array types not allowed here
-        const schema = schemaToOpenAPI(p.schema, componentNameMapping);
+        const schema = schemaToOpenAPI(
+          withoutNullIfOptional(p.schema),
+          componentNameMapping,
+        );
 
         if (schema && 'description' in schema) {
           delete schema.description;
-- 
2.43.0


From ee0f4853310f87985984c5671b38f86d5096cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 26/62] fix: properties of several intersected objects have to
 satisfy all of them

A property declared in more than one member of an intersection was documented with the
last declaration only, and listed as required more than once.
---
 packages/openapi-generator/src/optimize.ts | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..e972cf0 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -1,8 +1,20 @@
+import { isDeepStrictEqual } from 'node:util';
+
 import { combineComments } from './comments';
 import { isPrimitive, type CombinedType, type Primitive, type Schema } from './ir';
 
 export type OptimizeFn = (schema: Schema) => Schema;
 
+// A property of several objects has to satisfy all of them
+function intersectProperties(a: Schema, b: Schema, optimize: OptimizeFn): Schema {
+  const { comment: commentA, ...schemaA } = a;
+  const { comment: commentB, ...schemaB } = b;
+  if (isDeepStrictEqual(schemaA, schemaB)) {
+    return commentB !== undefined ? b : a;
+  }
+  return foldIntersection({ type: 'intersection', schemas: [a, b] }, optimize);
+}
+
 export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   if (schema.type !== 'intersection') {
     return schema;
@@ -17,8 +29,16 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   let result: Schema = combinedObject;
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
-      Object.assign(combinedObject.properties, innerSchema.properties);
-      combinedObject.required.push(...innerSchema.required);
+      for (const [key, prop] of Object.entries(innerSchema.properties)) {
+        const other = combinedObject.properties.hasOwnProperty(key)
+          ? combinedObject.properties[key]
+          : undefined;
+        combinedObject.properties[key] =
+          other === undefined ? prop : intersectProperties(other, prop, optimize);
+      }
+      combinedObject.required.push(
+        ...innerSchema.required.filter((key) => !combinedObject.required.includes(key)),
+      );
     } else if (result.type === 'intersection') {
       result.schemas.push(innerSchema);
     } else {
-- 
2.43.0


From 3df2c8a07efe4421e24d191ea19f54ef830441cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:42 +0000
Subject: [PATCH 27/62] fix: keep what a codec says about its arrays, objects
 and records

Simplification rebuilt those schemas from their structure alone, so the minItems of
nonEmptyArray (and anything a custom codec adds) never reached the document;
readonlyNonEmptyArray did not have it in the first place.
---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 packages/openapi-generator/src/optimize.ts     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 29042a3..13138bb 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -396,7 +396,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     NonEmptyString: () => E.right({ type: 'string', minLength: 1 }),
     readonlyNonEmptyArray: (_, innerSchema) =>
-      E.right({ type: 'array', items: innerSchema }),
+      E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     UUID: () => E.right({ type: 'string', title: 'uuid' }),
     Json: () => E.right({ type: 'any', title: 'JSON' }),
     JsonRecord: () => E.right({ type: 'record', codomain: { type: 'any' } }),
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index e972cf0..e9541c0 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -258,7 +258,7 @@ export function optimize(schema: Schema): Schema {
       }
     }
 
-    const schemaObject: Schema = { type: 'object', properties, required };
+    const schemaObject: Schema = { ...schema, properties, required };
 
     return withComment(schemaObject, schema);
   } else if (schema.type === 'intersection') {
@@ -274,11 +274,11 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ type: 'array', items: optimized }, schema);
+    return withComment({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
     return withComment(
       {
-        type: 'record',
+        ...schema,
         ...(schema.domain ? { domain: optimize(schema.domain) } : {}),
         codomain: optimize(schema.codomain),
       },
-- 
2.43.0


From e880479a546de4e2082f363f796d790b9d24ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 28/62] fix: NonNegativeBigIntFromString has a minimum, not a
 maximum, of zero

---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 13138bb..6437e15 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -331,7 +331,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
-        maximum: 0,
+        minimum: 0,
         decodedType: 'bigint',
       }),
     NonPositiveBigInt: () =>
-- 
2.43.0


From ced81c91771ccae82e1b3c54e8b4060ddffd8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 29/62] fix: a union of equal boolean literals does not accept
 both booleans

---
 packages/openapi-generator/src/optimize.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index e9541c0..df76746 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -86,7 +86,13 @@ function consolidateUnion(schema: Schema): Schema {
     (s) => s.type === 'boolean' || s.decodedType === 'boolean',
   );
 
-  if (booleanSchemas.length === innerSchemas.length && booleanSchemas.length > 0) {
+  const booleanValues = new Set(
+    booleanSchemas.flatMap((s) =>
+      s.type === 'boolean' && s.enum !== undefined ? s.enum : [true, false],
+    ),
+  );
+
+  if (booleanSchemas.length === innerSchemas.length && booleanValues.size > 1) {
     return { type: 'boolean' };
   }
 
-- 
2.43.0


From 12e1ba62bd882a542f0829c1b873b9300dd88277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 30/62] fix: codecs found in packages by one project are
 unknown to others

---
 packages/openapi-generator/src/project.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 856db56..d0dc710 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -23,7 +23,8 @@ export class Project {
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-    this.knownImports = knownImports;
+    // Codecs found in packages are added to those of this project only
+    this.knownImports = { ...knownImports };
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
-- 
2.43.0


From 0714dccfd8a2d901dc4c6b346f7ef08e2b67b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 31/62] fix: the order within the document does not depend on
 the locale

---
 packages/openapi-generator/src/openapi.ts  | 4 ++--
 packages/openapi-generator/src/optimize.ts | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3f37c47..6ff1731 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -540,11 +540,11 @@ export function convertRoutesToOpenAPI(
   );
 
   const sortedPaths = Object.keys(paths)
-    .sort((a, b) => a.localeCompare(b))
+    .sort((a, b) => a.localeCompare(b, 'en'))
     .reduce(
       (acc, key) => {
         const sortedMethods = Object.keys(paths[key]!)
-          .sort((a, b) => a.localeCompare(b))
+          .sort((a, b) => a.localeCompare(b, 'en'))
           .reduce(
             (methodAcc, methodKey) => {
               methodAcc[methodKey] = paths[key]![methodKey]!;
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index df76746..5a981be 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -143,7 +143,7 @@ function mergeUnions(schema: Schema): Schema {
         : Object.assign(
             {},
             ...Object.entries(obj)
-              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB))
+              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB, 'en'))
               .map(([k, v]) => ({ [k]: sortObj(v) })),
           );
 
-- 
2.43.0


From fcb1d7f6a073db58d092656d96a351dc74a8babb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:22 +0000
Subject: [PATCH 32/62] fix: do not modify schemas that are in use elsewhere

Comments were written into schemas handed out by (custom) codecs or belonging to the
unsimplified tree, and then showed up wherever else these are used.
---
 packages/openapi-generator/src/apiSpec.ts      |  8 ++++----
 packages/openapi-generator/src/cli.ts          |  9 ++++-----
 packages/openapi-generator/src/codec.ts        |  5 +++--
 packages/openapi-generator/src/knownImports.ts | 10 ++++++----
 packages/openapi-generator/src/optimize.ts     |  8 +++-----
 packages/openapi-generator/src/route.ts        |  2 +-
 6 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 794e358..3db3855 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -83,10 +83,10 @@ export function parseApiSpec(
       if (E.isLeft(codecE)) {
         return codecE;
       }
-      if (comment !== undefined) {
-        codecE.right.comment = comment;
-      }
-      const routeResultE = parseRoute(project, codecE.right);
+      const routeResultE = parseRoute(
+        project,
+        comment !== undefined ? { ...codecE.right, comment } : codecE.right,
+      );
       if (E.isLeft(routeResultE)) {
         return routeResultE;
       }
diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 7071f50..6eb5e97 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -241,12 +241,11 @@ const app = command({
           );
           process.exit(1);
         }
-        if (comment !== undefined) {
-          codecE.right.comment = comment;
-        }
+        const component: Schema =
+          comment !== undefined ? { ...codecE.right, comment } : codecE.right;
 
-        components[componentName] = codecE.right;
-        queue.push(codecE.right);
+        components[componentName] = component;
+        queue.push(component);
       }
     }
 
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 4a816c4..5419cb3 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -555,9 +555,10 @@ export function parseCodecInitializer(
         const plainInitE = parsePlainInitializer(project, newSourceFile, init);
 
         if (E.isLeft(plainInitE)) return plainInitE;
-        if (comment !== undefined) plainInitE.right.comment = comment;
 
-        return plainInitE;
+        return comment !== undefined
+          ? E.right({ ...plainInitE.right, comment })
+          : plainInitE;
       }
     }
     const args = init.arguments.map<E.Either<string, Schema>>(({ expression }) => {
diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 6437e15..a014bdf 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -434,10 +434,12 @@ export const KNOWN_IMPORTS: KnownImports = {
           return errorLeft(`Unimplemented httpRequest type ${innerProps.type}`);
         }
 
-        innerProps.required = innerProps.required.filter(
-          (key) => !isOptional(innerProps.properties[key]!),
-        );
-        properties[outerKey] = innerProps;
+        properties[outerKey] = {
+          ...innerProps,
+          required: innerProps.required.filter(
+            (key) => !isOptional(innerProps.properties[key]!),
+          ),
+        };
       }
 
       return E.right({
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 5a981be..d044800 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -240,11 +240,9 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
 
 // This function is a helper that adds back any comments that were removed during optimization
 function withComment(newSchema: Schema, oldSchema: Schema): Schema {
-  if (oldSchema.comment) {
-    newSchema.comment = combineComments(oldSchema);
-  }
-
-  return newSchema;
+  return oldSchema.comment
+    ? { ...newSchema, comment: combineComments(oldSchema) }
+    : newSchema;
 }
 
 export function optimize(schema: Schema): Schema {
diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 5a84d85..4af8d35 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -45,7 +45,7 @@ function derefRequestSchema(
       comment !== undefined &&
       resolvedE.right.comment === undefined
     ) {
-      resolvedE.right.comment = comment;
+      return E.right({ ...resolvedE.right, comment });
     }
     return resolvedE;
   } else {
-- 
2.43.0


From c55e1f4cc25eb6302f93fd3f313959b6adf07f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 33/62] fix: optional members of unions and optional values of
 records are not required

A union or a record of known keys whose member or value may itself be undefined was
documented as required.
---
 packages/openapi-generator/src/openapi.ts  | 5 +++--
 packages/openapi-generator/src/optimize.ts | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 6ff1731..1c888c0 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -2,7 +2,7 @@ import { OpenAPIV3 } from 'openapi-types';
 
 import { STATUS_CODES } from 'http';
 import { parseCommentBlock } from './jsdoc';
-import { optimize } from './optimize';
+import { filterUndefinedUnion, optimize } from './optimize';
 import type { Route } from './route';
 import type { Schema } from './ir';
 import { Block } from 'comment-parser';
@@ -245,6 +245,7 @@ export function schemaToOpenAPI(
             componentNameMapping,
           ) as OpenAPIV3.SchemaObject;
           if (keys.type === 'string' && keys.enum !== undefined) {
+            const [isOptional] = filterUndefinedUnion(schema.codomain);
             const properties = keys.enum.reduce((acc, key) => {
               return { ...acc, [key]: additionalProperties };
             }, {});
@@ -253,7 +254,7 @@ export function schemaToOpenAPI(
               type: 'object',
               properties,
               ...defaultOpenAPIObject,
-              required: keys.enum,
+              ...(isOptional ? {} : { required: keys.enum }),
             };
           }
         }
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index d044800..dbacdab 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -76,7 +76,7 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
 
 function consolidateUnion(schema: Schema): Schema {
   if (schema.type !== 'union') return schema;
-  if (schema.schemas.length === 1) return schema.schemas[0]!;
+  if (schema.schemas.length === 1) return optimize(schema.schemas[0]!);
   if (schema.schemas.length === 0) return { type: 'undefined' };
 
   const consolidatableTypes = ['boolean', 'number', 'string'];
@@ -174,7 +174,12 @@ export function simplifyUnion(schema: Schema, optimize: OptimizeFn): Schema {
   if (schema.schemas.length === 1) return schema.schemas[0]!;
   if (schema.schemas.length === 0) return { type: 'undefined' };
 
-  const innerSchemas = schema.schemas.map(optimize);
+  // A member that may be undefined makes the whole union optional
+  const innerSchemas = schema.schemas.map(optimize).flatMap((innerSchema) => {
+    const [isOptional, filteredSchema] = filterUndefinedUnion(innerSchema);
+    const undefinedSchema: Schema = { type: 'undefined' };
+    return isOptional ? [filteredSchema, undefinedSchema] : [innerSchema];
+  });
 
   const literals: Record<Primitive['type'], Set<any>> = {
     string: new Set(),
-- 
2.43.0


From 5cd0ccff82f05ac923a5f6748a7b6515599a6fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 34/62] fix: an optional or partly unknown schema keeps its own
 comment

---
 packages/openapi-generator/src/openapi.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 1c888c0..a0fca42 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -162,7 +162,7 @@ export function schemaToOpenAPI(
               ...(nonUndefinedSchemas.length === 1
                 ? nonUndefinedSchemas[0]!
                 : { type: 'union', schemas: nonUndefinedSchemas }),
-              comment: schema.comment,
+              ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
             },
             componentNameMapping,
           );
@@ -179,7 +179,7 @@ export function schemaToOpenAPI(
             return schemaToOpenAPI(
               {
                 ...nonUnknownSchemas[0],
-                comment: schema.comment,
+                ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
                 ...(nullSchema ? { nullable: true } : {}),
               },
               componentNameMapping,
-- 
2.43.0


From a9f25921d8826abb84b9a36660969d46cce5bf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 35/62] fix: values of a named codec that may be undefined are
 not required

Properties and parameters referring to such a codec were documented as required, and a
codec that is always undefined was referred to without being part of the document.
---
 packages/openapi-generator/src/openapi.ts | 95 ++++++++++++++++++++++-
 1 file changed, 92 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index a0fca42..ab16393 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -4,7 +4,7 @@ import { STATUS_CODES } from 'http';
 import { parseCommentBlock } from './jsdoc';
 import { filterUndefinedUnion, optimize } from './optimize';
 import type { Route } from './route';
-import type { Schema } from './ir';
+import type { Reference, Schema } from './ir';
 import { Block } from 'comment-parser';
 
 export type ComponentNameMapping = Record<string, Record<string, string>>;
@@ -498,6 +498,69 @@ function routeToOpenAPI(
   ];
 }
 
+// References to codecs that accept `undefined` stand for optional values: make that
+// visible to the simplification, which sees no further than the reference
+function resolveOptionalRefs(
+  schema: Schema,
+  find: (ref: Reference) => Schema | undefined,
+): Schema {
+  const resolve = (s: Schema) => resolveOptionalRefs(s, find);
+  switch (schema.type) {
+    case 'ref': {
+      const target = find(schema);
+      if (target?.type === 'undefined') {
+        return target;
+      } else if (!acceptsUndefined(schema, find)) {
+        return schema;
+      }
+      const { comment, ...ref } = schema;
+      return {
+        type: 'union',
+        schemas: [ref, { type: 'undefined' }],
+        ...(comment !== undefined ? { comment } : {}),
+      };
+    }
+    case 'array':
+      return { ...schema, items: resolve(schema.items) };
+    case 'object': {
+      const properties: Record<string, Schema> = {};
+      for (const [name, prop] of Object.entries(schema.properties)) {
+        properties[name] = resolve(prop);
+      }
+      return { ...schema, properties };
+    }
+    case 'record':
+      return { ...schema, codomain: resolve(schema.codomain) };
+    case 'union':
+    case 'intersection':
+    case 'tuple':
+      return { ...schema, schemas: schema.schemas.map(resolve) };
+    default:
+      return schema;
+  }
+}
+
+function acceptsUndefined(
+  schema: Schema,
+  find: (ref: Reference) => Schema | undefined,
+  seen: Schema[] = [],
+): boolean {
+  if (schema.type === 'undefined') {
+    return true;
+  } else if (schema.type === 'union') {
+    return schema.schemas.some((s) => acceptsUndefined(s, find, seen));
+  } else if (schema.type === 'ref') {
+    const target = find(schema);
+    return (
+      target !== undefined &&
+      !seen.includes(target) &&
+      acceptsUndefined(target, find, [...seen, target])
+    );
+  } else {
+    return false;
+  }
+}
+
 export function convertRoutesToOpenAPI(
   info: OpenAPIV3.InfoObject,
   servers: OpenAPIV3.ServerObject[],
@@ -505,8 +568,31 @@ export function convertRoutesToOpenAPI(
   schemas: Record<string, Schema>,
   componentNameMapping?: ComponentNameMapping,
 ): OpenAPIV3.Document {
+  const findComponent = (ref: Reference): Schema | undefined => {
+    const name = componentNameMapping?.[ref.location]?.[ref.name] ?? ref.name;
+    return schemas.hasOwnProperty(name) ? schemas[name] : undefined;
+  };
+  const resolveOptional = (s: Schema) => resolveOptionalRefs(s, findComponent);
+
   const paths = routes.reduce(
-    (acc, route) => {
+    (acc, originalRoute) => {
+      const route: Route = {
+        ...originalRoute,
+        parameters: originalRoute.parameters.map((p) => ({
+          ...p,
+          schema: resolveOptional(p.schema),
+          required: p.required && !acceptsUndefined(p.schema, findComponent),
+        })),
+        ...(originalRoute.body !== undefined
+          ? { body: resolveOptional(originalRoute.body) }
+          : {}),
+        response: Object.fromEntries(
+          Object.entries(originalRoute.response).map(([code, s]) => [
+            code,
+            resolveOptional(s),
+          ]),
+        ),
+      };
       const [path, method, pathItem] = routeToOpenAPI(route, componentNameMapping);
       let pathObject = acc[path] ?? {};
       pathObject[method] = pathItem;
@@ -517,7 +603,10 @@ export function convertRoutesToOpenAPI(
 
   const openapiSchemas = Object.entries(schemas).reduce(
     (acc, [name, schema]) => {
-      const openapiSchema = schemaToOpenAPI(schema, componentNameMapping);
+      const openapiSchema = schemaToOpenAPI(
+        resolveOptional(schema),
+        componentNameMapping,
+      );
       if (openapiSchema === undefined) {
         return acc;
       } else if ('$ref' in openapiSchema) {
-- 
2.43.0


From 0bf9ff7022404bfec22b0e52aa944dc757874ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:25 +0000
Subject: [PATCH 36/62] fix: path parameters are always required

---
 packages/openapi-generator/src/openapi.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index ab16393..4bd9ef0 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -581,7 +581,9 @@ export function convertRoutesToOpenAPI(
         parameters: originalRoute.parameters.map((p) => ({
           ...p,
           schema: resolveOptional(p.schema),
-          required: p.required && !acceptsUndefined(p.schema, findComponent),
+          required:
+            p.type === 'path' ||
+            (p.required && !acceptsUndefined(p.schema, findComponent)),
         })),
         ...(originalRoute.body !== undefined
           ? { body: resolveOptional(originalRoute.body) }
-- 
2.43.0


From 1cb45f60867fdcde37fdf10fb0c7e2d26c1a3c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:32 +0000
Subject: [PATCH 37/62] fix: parentheses and type annotations do not hide a
 codec

---
 packages/openapi-generator/src/codec.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 5419cb3..4dde873 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -450,7 +450,13 @@ export function parsePlainInitializer(
     return E.right({ type: 'null', enum: [null] });
   } else if (init.type === 'Identifier' && init.value === 'undefined') {
     return E.right({ type: 'undefined' });
-  } else if (init.type === 'TsConstAssertion' || init.type === 'TsAsExpression') {
+  } else if (
+    init.type === 'TsConstAssertion' ||
+    init.type === 'TsAsExpression' ||
+    init.type === 'TsSatisfiesExpression' ||
+    init.type === 'TsNonNullExpression' ||
+    init.type === 'ParenthesisExpression'
+  ) {
     return parsePlainInitializer(project, source, init.expression);
   } else if (init.type === 'TemplateLiteral') {
     return parseTemplateLiteral(project, source, init);
-- 
2.43.0


From 28f9718def24f48c31a16543c9cc2b1477007a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 38/62] fix: look up renamed exports by the name of the
 declaration if need be

A file may export a declaration under a name by which it knows an import of its own.
---
 packages/openapi-generator/src/resolveInit.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index fb3f96f..72af9e9 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -154,10 +154,12 @@ export function findRefName(
   init: swc.Expression,
   importedName: string,
 ): string {
-  const { declarations, exports } = sourceFile.symbols;
+  const { declarations, exports, imports } = sourceFile.symbols;
+  // Names of the file itself take precedence over those it exports
   const isFoundAsImported = declarations.some((d) => d.name === importedName)
     ? declarations.some((d) => d.name === importedName && d.init === init)
-    : exports.some((e) => e.exportedName === importedName);
+    : !imports.some((i) => i.localName === importedName) &&
+      exports.some((e) => e.exportedName === importedName);
   return isFoundAsImported
     ? importedName
     : findDeclaredName(sourceFile, init) ?? importedName;
-- 
2.43.0


From 3aeb5a79432f64354ceb5d1475bea02fb650d30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 39/62] fix: headers and path parameters of referenced union
 members are kept

---
 packages/openapi-generator/src/route.ts | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 4af8d35..4b56ef2 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -126,6 +126,7 @@ function parseRequestUnion(
   const headerSchema: Schema = { type: 'union', schemas: [] };
   let body: Schema | undefined;
 
+  const subSchemas: (Schema & { type: 'object' })[] = [];
   for (let subSchema of schema.schemas) {
     if (subSchema.type === 'ref') {
       let derefE = derefRequestSchema(project, subSchema);
@@ -138,6 +139,10 @@ function parseRequestUnion(
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
     }
+    subSchemas.push(subSchema);
+  }
+
+  for (const subSchema of subSchemas) {
     if (subSchema.properties['query'] !== undefined) {
       querySchema.schemas.push(subSchema.properties['query']);
     }
@@ -168,11 +173,8 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
-      if (
-        subSchema.type === 'object' &&
-        subSchema.properties['headers']?.type === 'object'
-      ) {
+    for (const subSchema of subSchemas) {
+      if (subSchema.properties['headers']?.type === 'object') {
         const headers = subSchema.properties['headers'];
         for (const [name, prop] of Object.entries(headers.properties)) {
           // Only add if not already present
@@ -192,20 +194,18 @@ function parseRequestUnion(
   }
 
   // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
-    if (subSchema.type === 'object') {
-      const pathSchema = subSchema.properties['params'];
-      if (pathSchema !== undefined && pathSchema.type === 'object') {
-        for (const [name, prop] of Object.entries(pathSchema.properties)) {
-          parameters.push({
-            type: 'path',
-            name,
-            schema: prop,
-            required: pathSchema.required.includes(name),
-          });
-        }
-        break; // Found path params, stop looking
+  for (const subSchema of subSchemas) {
+    const pathSchema = subSchema.properties['params'];
+    if (pathSchema !== undefined && pathSchema.type === 'object') {
+      for (const [name, prop] of Object.entries(pathSchema.properties)) {
+        parameters.push({
+          type: 'path',
+          name,
+          schema: prop,
+          required: pathSchema.required.includes(name),
+        });
       }
+      break; // Found path params, stop looking
     }
   }
 
-- 
2.43.0


From 6a850b3a5eec6e6b620c2b9a66ed46b789d91587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 40/62] fix: a parameter of several intersected requests is one
 parameter

---
 packages/openapi-generator/src/route.ts | 29 ++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 4b56ef2..8ebab66 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -1,5 +1,6 @@
 import type { Block } from 'comment-parser';
 import * as E from 'fp-ts/Either';
+import { isDeepStrictEqual } from 'node:util';
 
 import { parseCodecInitializer } from './codec';
 import type { CombinedType, Schema } from './ir';
@@ -212,6 +213,30 @@ function parseRequestUnion(
   return E.right({ parameters, body });
 }
 
+// A parameter of several requests has to satisfy all of them
+function addParameter(parameters: Parameter[], parameter: Parameter): void {
+  const index = parameters.findIndex(
+    (p) => p.type === parameter.type && p.name === parameter.name,
+  );
+  const other = parameters[index];
+  if (other === undefined) {
+    parameters.push(parameter);
+    return;
+  }
+  const comment = parameter.schema.comment ?? other.schema.comment;
+  parameters[index] = {
+    ...other,
+    required: other.required || parameter.required,
+    schema: isDeepStrictEqual(other.schema, parameter.schema)
+      ? other.schema
+      : {
+          type: 'intersection',
+          schemas: [other.schema, parameter.schema],
+          ...(comment !== undefined ? { comment } : {}),
+        },
+  };
+}
+
 function parseRequestIntersection(
   project: Project,
   schema: Schema,
@@ -228,7 +253,9 @@ function parseRequestIntersection(
     if (E.isLeft(subResultE)) {
       return subResultE;
     }
-    result.parameters.push(...subResultE.right.parameters);
+    for (const parameter of subResultE.right.parameters) {
+      addParameter(result.parameters, parameter);
+    }
     if (subResultE.right.body !== undefined) {
       (result.body as CombinedType).schemas.push(subResultE.right.body);
     }
-- 
2.43.0


From 8e3b290ec3cdb3dff7262c869c241f27c323a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 41/62] fix: intersections of optional parameters are not
 required

---
 packages/openapi-generator/src/openapi.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 4bd9ef0..f09a5b3 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -549,6 +549,8 @@ function acceptsUndefined(
     return true;
   } else if (schema.type === 'union') {
     return schema.schemas.some((s) => acceptsUndefined(s, find, seen));
+  } else if (schema.type === 'intersection') {
+    return schema.schemas.every((s) => acceptsUndefined(s, find, seen));
   } else if (schema.type === 'ref') {
     const target = find(schema);
     return (
-- 
2.43.0


From 85690727dfd0da6dda5314645cc7fd26b0c49a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:27 +0000
Subject: [PATCH 42/62] fix: codecs named like inherited properties keep their
 names

---
 packages/openapi-generator/src/cli.ts      | 11 +++++------
 packages/openapi-generator/src/openapi.ts  |  4 +++-
 packages/openapi-generator/src/optimize.ts |  5 ++++-
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 6eb5e97..17fabcf 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -149,7 +149,8 @@ const app = command({
       process.exit(1);
     }
 
-    const components: Record<string, Schema> = {};
+    // Codecs may have the names of properties every object inherits
+    const components: Record<string, Schema> = Object.create(null);
     const queue: Schema[] = apiSpec.flatMap((route) => {
       return [
         ...route.parameters.map((p) => p.schema),
@@ -157,15 +158,13 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentCollisionCounters: Record<string, number> = {};
+    const componentCollisionCounters: Record<string, number> = Object.create(null);
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
     // Track the mapping: location -> originalName -> finalComponentName
     const mapComponentName = (location: string, name: string, componentName: string) => {
-      componentNameMapping[location] = {
-        ...componentNameMapping[location],
-        [name]: componentName,
-      };
+      const names = (componentNameMapping[location] ??= Object.create(null));
+      names[name] = componentName;
     };
 
     // Helper to generate unique component names (name, name1, name2, ...)
diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index f09a5b3..970e3e9 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -572,7 +572,9 @@ export function convertRoutesToOpenAPI(
 ): OpenAPIV3.Document {
   const findComponent = (ref: Reference): Schema | undefined => {
     const name = componentNameMapping?.[ref.location]?.[ref.name] ?? ref.name;
-    return schemas.hasOwnProperty(name) ? schemas[name] : undefined;
+    return Object.prototype.hasOwnProperty.call(schemas, name)
+      ? schemas[name]
+      : undefined;
   };
   const resolveOptional = (s: Schema) => resolveOptionalRefs(s, findComponent);
 
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index dbacdab..bd3e8df 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -30,7 +30,10 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
       for (const [key, prop] of Object.entries(innerSchema.properties)) {
-        const other = combinedObject.properties.hasOwnProperty(key)
+        const other = Object.prototype.hasOwnProperty.call(
+          combinedObject.properties,
+          key,
+        )
           ? combinedObject.properties[key]
           : undefined;
         combinedObject.properties[key] =
-- 
2.43.0


From eed51c024e3a8450988f4052078b39eb1ea40f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 43/62] fix: a renamed export is not mistaken for a re-export
 of the same name

---
 packages/openapi-generator/src/resolveInit.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 72af9e9..130d04f 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -156,10 +156,14 @@ export function findRefName(
 ): string {
   const { declarations, exports, imports } = sourceFile.symbols;
   // Names of the file itself take precedence over those it exports
+  const isDeclaredAs = (name: string) =>
+    declarations.find((d) => d.name === name)?.init === init;
   const isFoundAsImported = declarations.some((d) => d.name === importedName)
-    ? declarations.some((d) => d.name === importedName && d.init === init)
+    ? isDeclaredAs(importedName)
     : !imports.some((i) => i.localName === importedName) &&
-      exports.some((e) => e.exportedName === importedName);
+      isDeclaredAs(
+        exports.find((e) => e.exportedName === importedName)?.localName ?? '',
+      );
   return isFoundAsImported
     ? importedName
     : findDeclaredName(sourceFile, init) ?? importedName;
-- 
2.43.0


From 10058cc819ccd80ac491f6e1a4b9c4412f289f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:32 +0000
Subject: [PATCH 44/62] fix: variables without an initializer do not crash the
 command

---
 packages/openapi-generator/src/cli.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 17fabcf..92da371 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -111,7 +111,8 @@ const app = command({
     let apiSpec: Route[] = [];
     let servers: OpenAPIV3.ServerObject[] = [];
     for (const symbol of Object.values(entryPoint.symbols.declarations)) {
-      if (symbol.init === undefined) {
+      // Variables without an initializer have none
+      if (symbol.init === undefined || symbol.init === null) {
         continue;
       } else if (symbol.init.type !== 'CallExpression') {
         continue;
-- 
2.43.0


From c039d6ad84e235f8f16f29ae7ef2890474eaabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 45/62] fix: parentheses and type annotations do not hide a
 codec, route or specification

---
 packages/openapi-generator/src/apiSpec.ts     |  4 +++-
 packages/openapi-generator/src/cli.ts         | 19 +++++++++----------
 packages/openapi-generator/src/codec.ts       | 17 ++++++++---------
 packages/openapi-generator/src/resolveInit.ts | 19 +++++++++++++++++++
 4 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index 3db3855..cf59abf 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -4,7 +4,7 @@ import type { Block } from 'comment-parser';
 
 import { parsePlainInitializer } from './codec';
 import type { Project } from './project';
-import { resolveLiteralOrIdentifier } from './resolveInit';
+import { resolveLiteralOrIdentifier, unwrapExpression } from './resolveInit';
 import { parseRoute, type Route } from './route';
 import { SourceFile } from './sourceFile';
 import { OpenAPIV3 } from 'openapi-types';
@@ -15,6 +15,8 @@ export function parseApiSpec(
   sourceFile: SourceFile,
   expr: swc.Expression,
 ): E.Either<string, Route[]> {
+  expr = unwrapExpression(expr);
+
   // If apiSpec is passed an identifier (variable), first resolve it to its actual value
   if (expr.type === 'Identifier') {
     const resolvedE = resolveLiteralOrIdentifier(project, sourceFile, expr);
diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 92da371..d0f189c 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -15,7 +15,7 @@ import type { Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findDeclaredName, findRefInitializer } from './resolveInit';
+import { findDeclaredName, findRefInitializer, unwrapExpression } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -114,17 +114,16 @@ const app = command({
       // Variables without an initializer have none
       if (symbol.init === undefined || symbol.init === null) {
         continue;
-      } else if (symbol.init.type !== 'CallExpression') {
+      }
+      const init = unwrapExpression(symbol.init);
+      if (init.type !== 'CallExpression') {
         continue;
-      } else if (symbol.init.arguments.length === 0) {
+      } else if (init.arguments.length === 0) {
         continue;
-      } else if (
-        symbol.init.callee.type === 'Super' ||
-        symbol.init.callee.type === 'Import'
-      ) {
-        logWarn(`Skipping ${symbol.name} because it is a ${symbol.init.callee.type}`);
+      } else if (init.callee.type === 'Super' || init.callee.type === 'Import') {
+        logWarn(`Skipping ${symbol.name} because it is a ${init.callee.type}`);
         continue;
-      } else if (!isApiSpec(entryPoint, symbol.init.callee)) {
+      } else if (!isApiSpec(entryPoint, init.callee)) {
         continue;
       }
       logInfo(`Found API spec in ${symbol.name}`);
@@ -132,7 +131,7 @@ const app = command({
       const result = parseApiSpec(
         project,
         entryPoint,
-        symbol.init.arguments[0]!.expression,
+        init.arguments[0]!.expression,
       );
       if (E.isLeft(result)) {
         logError(`Error when parsing ${symbol.name}: ${result.left}`);
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 4dde873..129b3bf 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -6,7 +6,12 @@ import { leadingComment } from './comments';
 import type { Object, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findRefInitializer, findRefName, findSymbolInitializer } from './resolveInit';
+import {
+  findRefInitializer,
+  findRefName,
+  findSymbolInitializer,
+  unwrapExpression,
+} from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -436,6 +441,7 @@ export function parsePlainInitializer(
   source: SourceFile,
   init: swc.Expression,
 ): E.Either<string, Schema> {
+  init = unwrapExpression(init);
   if (init.type === 'ObjectExpression') {
     return parseObjectExpression(project, source, init.span.start, init);
   } else if (init.type === 'ArrayExpression') {
@@ -450,14 +456,6 @@ export function parsePlainInitializer(
     return E.right({ type: 'null', enum: [null] });
   } else if (init.type === 'Identifier' && init.value === 'undefined') {
     return E.right({ type: 'undefined' });
-  } else if (
-    init.type === 'TsConstAssertion' ||
-    init.type === 'TsAsExpression' ||
-    init.type === 'TsSatisfiesExpression' ||
-    init.type === 'TsNonNullExpression' ||
-    init.type === 'ParenthesisExpression'
-  ) {
-    return parsePlainInitializer(project, source, init.expression);
   } else if (init.type === 'TemplateLiteral') {
     return parseTemplateLiteral(project, source, init);
   } else if (
@@ -497,6 +495,7 @@ export function parseCodecInitializer(
   source: SourceFile,
   init: swc.Expression,
 ): E.Either<string, Schema> {
+  init = unwrapExpression(init);
   if (init.type === 'Identifier' || init.type === 'MemberExpression') {
     const identifierE = codecIdentifier(project, source, init);
     if (E.isLeft(identifierE)) {
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 130d04f..9e92f9d 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -8,6 +8,24 @@ import type { Project } from './project';
 import type { SourceFile } from './sourceFile';
 import { errorLeft } from './error';
 
+/**
+ * Removes what surrounds an expression without changing its value: parentheses and type
+ * annotations
+ */
+export function unwrapExpression(expr: swc.Expression): swc.Expression {
+  switch (expr.type) {
+    case 'ParenthesisExpression':
+    case 'TsConstAssertion':
+    case 'TsAsExpression':
+    case 'TsTypeAssertion':
+    case 'TsSatisfiesExpression':
+    case 'TsNonNullExpression':
+      return unwrapExpression(expr.expression);
+    default:
+      return expr;
+  }
+}
+
 type ResolvedInitializer = [SourceFile, swc.Expression, Block | undefined];
 
 function resolveImportPath(
@@ -175,6 +193,7 @@ export function resolveLiteralOrIdentifier(
   expr: swc.Expression,
   comment?: Block,
 ): E.Either<string, [SourceFile, swc.Expression, Block | undefined]> {
+  expr = unwrapExpression(expr);
   if (expr.type === 'Identifier' || expr.type === 'MemberExpression') {
     let name: string | [string, string];
     if (expr.type === 'Identifier') {
-- 
2.43.0


From 6c28aae3088fcac9ef83f3d045b6ba72202ac31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 46/62] fix: a codec referred to by several of its names is one
 alternative

---
 packages/openapi-generator/src/openapi.ts | 37 +++++++++++++++--------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 970e3e9..4980370 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -498,22 +498,33 @@ function routeToOpenAPI(
   ];
 }
 
+// Where references by the name of the component point to
+const COMPONENT_LOCATION = '#/components/schemas';
+
 // References to codecs that accept `undefined` stand for optional values: make that
-// visible to the simplification, which sees no further than the reference
-function resolveOptionalRefs(
+// visible to the simplification, which sees no further than the reference. References to
+// one codec by several of its names are made equal.
+function resolveRefs(
   schema: Schema,
   find: (ref: Reference) => Schema | undefined,
+  findName: (ref: Reference) => string | undefined,
 ): Schema {
-  const resolve = (s: Schema) => resolveOptionalRefs(s, find);
+  const resolve = (s: Schema) => resolveRefs(s, find, findName);
   switch (schema.type) {
     case 'ref': {
       const target = find(schema);
       if (target?.type === 'undefined') {
         return target;
-      } else if (!acceptsUndefined(schema, find)) {
-        return schema;
       }
-      const { comment, ...ref } = schema;
+      const componentName = findName(schema);
+      const namedRef =
+        componentName !== undefined
+          ? { ...schema, name: componentName, location: COMPONENT_LOCATION }
+          : schema;
+      if (!acceptsUndefined(schema, find)) {
+        return namedRef;
+      }
+      const { comment, ...ref } = namedRef;
       return {
         type: 'union',
         schemas: [ref, { type: 'undefined' }],
@@ -570,13 +581,15 @@ export function convertRoutesToOpenAPI(
   schemas: Record<string, Schema>,
   componentNameMapping?: ComponentNameMapping,
 ): OpenAPIV3.Document {
+  const findName = (ref: Reference): string | undefined =>
+    componentNameMapping?.[ref.location]?.[ref.name];
   const findComponent = (ref: Reference): Schema | undefined => {
-    const name = componentNameMapping?.[ref.location]?.[ref.name] ?? ref.name;
+    const name = findName(ref) ?? ref.name;
     return Object.prototype.hasOwnProperty.call(schemas, name)
       ? schemas[name]
       : undefined;
   };
-  const resolveOptional = (s: Schema) => resolveOptionalRefs(s, findComponent);
+  const resolve = (s: Schema) => resolveRefs(s, findComponent, findName);
 
   const paths = routes.reduce(
     (acc, originalRoute) => {
@@ -584,18 +597,18 @@ export function convertRoutesToOpenAPI(
         ...originalRoute,
         parameters: originalRoute.parameters.map((p) => ({
           ...p,
-          schema: resolveOptional(p.schema),
+          schema: resolve(p.schema),
           required:
             p.type === 'path' ||
             (p.required && !acceptsUndefined(p.schema, findComponent)),
         })),
         ...(originalRoute.body !== undefined
-          ? { body: resolveOptional(originalRoute.body) }
+          ? { body: resolve(originalRoute.body) }
           : {}),
         response: Object.fromEntries(
           Object.entries(originalRoute.response).map(([code, s]) => [
             code,
-            resolveOptional(s),
+            resolve(s),
           ]),
         ),
       };
@@ -610,7 +623,7 @@ export function convertRoutesToOpenAPI(
   const openapiSchemas = Object.entries(schemas).reduce(
     (acc, [name, schema]) => {
       const openapiSchema = schemaToOpenAPI(
-        resolveOptional(schema),
+        resolve(schema),
         componentNameMapping,
       );
       if (openapiSchema === undefined) {
-- 
2.43.0


From 163587b1ced4b64a56073f708dfd7f4767d02e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 47/62] fix: @uniqueItems describes the array, not its items

---
 packages/openapi-generator/src/openapi.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 4980370..2413409 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -79,7 +79,7 @@ export function schemaToOpenAPI(
           return undefined;
         }
 
-        const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
+        const { example, minItems, maxItems, uniqueItems, ...rest } = defaultOpenAPIObject;
         const isArrayExample = Array.isArray(example);
 
         const siblings = {
@@ -107,6 +107,7 @@ export function schemaToOpenAPI(
           type: 'array',
           ...(minItems !== undefined ? { minItems } : {}),
           ...(maxItems !== undefined ? { maxItems } : {}),
+          ...(uniqueItems !== undefined ? { uniqueItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
-- 
2.43.0


From aada98d700afe753c4fc910bfa859ffe75db6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 48/62] fix: a route's summary does not end in blanks

---
 packages/openapi-generator/src/jsdoc.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/jsdoc.ts b/packages/openapi-generator/src/jsdoc.ts
index a42ddc6..0f06661 100644
--- a/packages/openapi-generator/src/jsdoc.ts
+++ b/packages/openapi-generator/src/jsdoc.ts
@@ -57,7 +57,7 @@ export function parseCommentBlock(comment: Block): JSDoc {
       if (line.tokens.description === '') {
         continue;
       }
-      summary = line.tokens.description;
+      summary = line.tokens.description.trim();
     } else {
       description = `${description ?? ''}\n${line.tokens.description}`;
     }
-- 
2.43.0


From fa658679f556e7f3f1124f731a56e1ac6e76dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 49/62] fix: a documented union keeps its comment within
 another union

---
 packages/openapi-generator/src/optimize.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index bd3e8df..4f7e0d1 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -156,7 +156,13 @@ function mergeUnions(schema: Schema): Schema {
   schema.schemas.forEach((innerSchema) => {
     if (innerSchema.type === 'union') {
       const merged = mergeUnions(innerSchema);
-      resultingSchemas.add(deterministicStringify(merged));
+      resultingSchemas.add(
+        deterministicStringify(
+          innerSchema.comment !== undefined
+            ? { ...merged, comment: innerSchema.comment }
+            : merged,
+        ),
+      );
     } else {
       resultingSchemas.add(deterministicStringify(innerSchema));
     }
-- 
2.43.0


From 72703e8e6a0ad7abbb9b6e99adc3016e79630b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 50/62] fix: @default and @example of nullable numbers and
 booleans are numbers and booleans

---
 packages/openapi-generator/src/openapi.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 2413409..58f3b24 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -294,6 +294,14 @@ export function schemaToOpenAPI(
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
       return fieldValue.replace(/^"(.*)"$/, '$1');
+    } else if (schema.type === 'union') {
+      // A nullable or optional value is written like the value itself
+      const [member, ...others] = schema.schemas.filter(
+        (s) => s.type !== 'null' && s.type !== 'undefined',
+      );
+      return member !== undefined && others.length === 0
+        ? parseField(member, fieldValue)
+        : fieldValue;
     } else {
       return fieldValue;
     }
-- 
2.43.0


From dd5cbf82898b84306cc83e0f526cbd9122ba54d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 51/62] fix: a field may be marked other than the codec it
 makes optional

---
 packages/openapi-generator/src/comments.ts | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index 5dcf9b0..bf959d3 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -116,6 +116,24 @@ export function getAllSchemaComments(schema: Schema): Block[] {
   return result;
 }
 
+// A higher level `@private` or `@public` overrides a lower level mark to the contrary
+function withoutOverriddenVisibility(comment: Block, higher: Set<string>): Block {
+  const isOverridden = (tag: string) =>
+    (tag === 'private' && higher.has('public')) ||
+    (tag === 'public' && higher.has('private'));
+  if (!comment.tags.some(({ tag }) => isOverridden(tag))) return comment;
+
+  return {
+    ...comment,
+    tags: comment.tags.filter(({ tag }) => !isOverridden(tag)),
+    source: comment.source.map((line) =>
+      isOverridden(line.tokens.tag.slice(1))
+        ? { ...line, tokens: { ...line.tokens, tag: '' } }
+        : line,
+    ),
+  };
+}
+
 /**
  *
  * @param schema the schema to combine comments from
@@ -142,7 +160,8 @@ export function combineComments(schema: Schema): Block | undefined {
   }
 
   // Add all seen tags, problems, and source comments to the result
-  for (const comment of comments) {
+  for (const combined of comments) {
+    const comment = withoutOverriddenVisibility(combined, tagSet);
     for (const tag of comment.tags) {
       // Only add the tag if we haven't seen it before. Otherwise, the higher level tag is 'probably' the more relevant tag.
       if (!tagSet.has(tag.tag)) {
-- 
2.43.0


From c37273eb152473f4973bf30354d9cdde9ecd9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 52/62] fix: array parameters can be marked private or public

---
 packages/openapi-generator/src/openapi.ts | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 58f3b24..f00ea7b 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -468,10 +468,18 @@ function routeToOpenAPI(
           delete schema.description;
         }
 
-        const hasInternalFlag = schema && 'x-internal' in schema;
-        const internalValue = hasInternalFlag ? schema['x-internal'] : undefined;
+        // The comment of an array is found on its items
+        const commented =
+          p.schema?.comment !== undefined &&
+          schema &&
+          'type' in schema &&
+          schema.type === 'array'
+            ? schema.items
+            : schema;
+        const hasInternalFlag = commented && 'x-internal' in commented;
+        const internalValue = hasInternalFlag ? commented['x-internal'] : undefined;
         if (hasInternalFlag) {
-          delete schema['x-internal'];
+          delete commented['x-internal'];
         }
 
         return {
-- 
2.43.0


From fea3f89baea28effe88a6e13d33c717866b6c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 53/62] fix: unions of nothing but null are not left out

---
 packages/openapi-generator/src/openapi.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index f00ea7b..9c6fc91 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -209,7 +209,10 @@ export function schemaToOpenAPI(
           }
         }
         if (oneOf.length === 0) {
-          return undefined;
+          // Nothing but null
+          return nullable
+            ? { nullable, enum: [], ...defaultOpenAPIObject }
+            : undefined;
         } else if (oneOf.length === 1) {
           const singleSchema = oneOf[0];
           if (singleSchema === undefined) {
-- 
2.43.0


From 1b3703f04ecde1afbb18ea777ed2afb66ec028dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 54/62] fix: an intersection of optional codecs is optional

---
 packages/openapi-generator/src/optimize.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 4f7e0d1..f0d468e 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -20,7 +20,13 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
     return schema;
   }
 
-  const innerSchemas = schema.schemas.map(optimize);
+  // `undefined` is accepted if every member accepts it
+  const members = schema.schemas.map((s) => filterUndefinedUnion(optimize(s)));
+  const innerSchemas = members.map(([, filteredSchema]) => filteredSchema);
+  if (members.length > 0 && members.every(([isOptional]) => isOptional)) {
+    const required = foldIntersection({ ...schema, schemas: innerSchemas }, optimize);
+    return { type: 'union', schemas: [required, { type: 'undefined' }] };
+  }
   let combinedObject: Schema & { type: 'object' } = {
     type: 'object',
     properties: {},
-- 
2.43.0


From 30e8436aa040b87345877604ab532d8f20165147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 55/62] fix: fail if the document cannot be written

---
 packages/openapi-generator/src/cli.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index d0f189c..5b4e9c8 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -260,6 +260,11 @@ const app = command({
       componentNameMapping,
     );
 
+    // `console.log` by itself takes no notice of output that could not be written
+    process.stdout.on('error', (err) => {
+      logError(`Could not write the document: ${err.message}`);
+      process.exit(1);
+    });
     console.log(JSON.stringify(openapi, null, 2));
   },
 });
-- 
2.43.0


From 17a64459abeabef09a2c7090aa261678d0ad4d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 56/62] fix: codecs of unknown packages are not taken from
 other files

---
 packages/openapi-generator/src/resolveInit.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 9e92f9d..5551f34 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -132,10 +132,12 @@ export function findRefInitializer(
       }
     }
 
-    // that could not be found -> need to resolve the path from the project types
+    // that could not be found -> need to resolve the path from the project types, of
+    // which those of other files have nothing to do with this package
+    const packageName = ref.location.match(/^(@[^/]+\/)?[^/]+/)?.[0];
     const path =
       packageSource === undefined ? project.getTypes()[ref.name] : undefined;
-    if (path === undefined)
+    if (path === undefined || !path.includes(`/node_modules/${packageName}/`))
       return errorLeft(
         `Cannot find external codec '${ref.name}' from module '${ref.location}'. ` +
           `To fix this, add the codec definition to your codec config file. ` +
-- 
2.43.0


From 581a1ac89539182791fd6e12e9a4b61784276409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:24 +0000
Subject: [PATCH 57/62] fix: give enum members without an initializer their
 numeric value

---
 packages/openapi-generator/src/symbol.ts | 28 +++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 4ef1cb3..676f4ed 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -119,6 +119,24 @@ function declarationComment(
   return leadingComment(src, srcSpanStart, start, decl.span.start).pop();
 }
 
+function numericLiteral(value: number, span: swc.Span): swc.Expression {
+  return { type: 'NumericLiteral', value, span };
+}
+
+function enumSuccessor(value: swc.Expression, span: swc.Span): swc.Expression {
+  if (value.type === 'NumericLiteral') {
+    return numericLiteral(value.value + 1, span);
+  } else if (
+    value.type === 'UnaryExpression' &&
+    value.operator === '-' &&
+    value.argument.type === 'NumericLiteral'
+  ) {
+    return numericLiteral(1 - value.argument.value, span);
+  } else {
+    return { type: 'Invalid', span };
+  }
+}
+
 function parseDeclaration(
   src: string,
   srcSpanStart: number,
@@ -161,7 +179,11 @@ function parseDeclaration(
   } else if (subDeclaration.type === 'TsEnumDeclaration') {
     const comment = declarationComment(src, srcSpanStart, prev, decl);
     // Construct a synthetic object declaration
+    let nextInit = numericLiteral(0, subDeclaration.span);
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
+      // A member without an initializer is one more than the member in front of it
+      const value = member.init ?? nextInit;
+      nextInit = enumSuccessor(value, member.id.span);
       return {
         type: 'KeyValueProperty',
         key: {
@@ -170,11 +192,7 @@ function parseDeclaration(
           span: member.id.span,
           optional: false,
         },
-        value: member.init ?? {
-          type: 'StringLiteral',
-          value: member.id.value,
-          span: member.id.span,
-        },
+        value,
       };
     });
     const syntheticObject: swc.ObjectExpression = {
-- 
2.43.0


From 0347476f49cca2857324921fb202bf6c152d3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:33 +0000
Subject: [PATCH 58/62] fix: keep the documentation of unions, intersections
 and tuples themselves

---
 packages/openapi-generator/src/optimize.ts | 38 +++++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index f0d468e..e4dc41c 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -161,7 +161,7 @@ function mergeUnions(schema: Schema): Schema {
 
   schema.schemas.forEach((innerSchema) => {
     if (innerSchema.type === 'union') {
-      const merged = mergeUnions(innerSchema);
+      const merged = withMetadata(mergeUnions(innerSchema), innerSchema);
       resultingSchemas.add(
         deterministicStringify(
           innerSchema.comment !== undefined
@@ -258,11 +258,41 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
   }
 }
 
-// This function is a helper that adds back any comments that were removed during optimization
+// What makes up a schema, as opposed to what is said about it
+const STRUCTURAL_KEYS = new Set([
+  'type',
+  'schemas',
+  'items',
+  'properties',
+  'required',
+  'domain',
+  'codomain',
+  'enum',
+  'enumDescriptions',
+  'enumsDeprecated',
+  'name',
+  'location',
+  'comment',
+  'primitive',
+  'decodedType',
+]);
+
+// Adds back the title, description and so on of a schema that was replaced
+function withMetadata(newSchema: Schema, oldSchema: Schema): Schema {
+  const metadata = Object.entries(oldSchema).filter(
+    ([key]) => !STRUCTURAL_KEYS.has(key),
+  );
+  return metadata.length > 0
+    ? { ...newSchema, ...Object.fromEntries(metadata) }
+    : newSchema;
+}
+
+// This function is a helper that adds back any comments and metadata that were removed during optimization
 function withComment(newSchema: Schema, oldSchema: Schema): Schema {
+  const schema = withMetadata(newSchema, oldSchema);
   return oldSchema.comment
-    ? { ...newSchema, comment: combineComments(oldSchema) }
-    : newSchema;
+    ? { ...schema, comment: combineComments(oldSchema) }
+    : schema;
 }
 
 export function optimize(schema: Schema): Schema {
-- 
2.43.0


From 15816e0a77778152658042821c5a27621b014ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 59/62] fix: document what is said about optional unions

---
 packages/openapi-generator/src/openapi.ts | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 9c6fc91..5dfc45d 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -153,6 +153,9 @@ export function schemaToOpenAPI(
         // If any schema exists and it is in union with another schema - we can remove the any schema as an optimization
         const unknownSchema = schema.schemas.find((s) => s.type === 'any');
 
+        // What is said about the union holds for what remains of it
+        const { type: _type, schemas: _schemas, comment, ...metadata } = schema;
+
         // and we can just return the other schemas (while attaching the comment to them)
         const isOptional =
           nonUndefinedSchemas.length > 0 &&
@@ -163,7 +166,8 @@ export function schemaToOpenAPI(
               ...(nonUndefinedSchemas.length === 1
                 ? nonUndefinedSchemas[0]!
                 : { type: 'union', schemas: nonUndefinedSchemas }),
-              ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
+              ...metadata,
+              ...(comment !== undefined ? { comment } : {}),
             },
             componentNameMapping,
           );
@@ -180,7 +184,8 @@ export function schemaToOpenAPI(
             return schemaToOpenAPI(
               {
                 ...nonUnknownSchemas[0],
-                ...(schema.comment !== undefined ? { comment: schema.comment } : {}),
+                ...metadata,
+                ...(comment !== undefined ? { comment } : {}),
                 ...(nullSchema ? { nullable: true } : {}),
               },
               componentNameMapping,
@@ -190,7 +195,8 @@ export function schemaToOpenAPI(
               {
                 type: 'union',
                 schemas: nonUnknownSchemas,
-                comment: schema.comment,
+                ...metadata,
+                ...(comment !== undefined ? { comment } : {}),
                 ...(nullSchema ? { nullable: true } : {}),
               },
               componentNameMapping,
-- 
2.43.0


From 927fd07f1cf38bb1416956005c6706866de223c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 60/62] fix: refuse to spread calls that are no specification

---
 packages/openapi-generator/src/apiSpec.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/apiSpec.ts b/packages/openapi-generator/src/apiSpec.ts
index cf59abf..ed31add 100644
--- a/packages/openapi-generator/src/apiSpec.ts
+++ b/packages/openapi-generator/src/apiSpec.ts
@@ -46,8 +46,10 @@ export function parseApiSpec(
       // TODO: This is just assuming that a `CallExpression` here is to `h.apiSpec`
       if (spreadExpr.type === 'CallExpression') {
         const arg = spreadExpr.arguments[0];
-        if (arg === undefined) {
-          return errorLeft(`unimplemented spread argument type ${arg}`);
+        if (arg === undefined || spreadExpr.arguments.length > 1) {
+          return errorLeft(
+            `unimplemented spread of a call with ${spreadExpr.arguments.length} arguments`,
+          );
         }
         spreadExpr = arg.expression;
       }
-- 
2.43.0


From be1a183adef900ebe9ca9cbbb66994aa612a3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:03 +0000
Subject: [PATCH 61/62] fix: keep the description a codec definition gives its
 schema when the codec is used for a parameter

---
 packages/openapi-generator/src/openapi.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 5dfc45d..dbc1ec2 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -473,7 +473,10 @@ function routeToOpenAPI(
           componentNameMapping,
         );
 
+        // The description is that of the parameter
+        let description = p.schema?.comment?.description;
         if (schema && 'description' in schema) {
+          description ??= schema.description;
           delete schema.description;
         }
 
@@ -493,9 +496,7 @@ function routeToOpenAPI(
 
         return {
           name: p.name,
-          ...(p.schema?.comment?.description !== undefined
-            ? { description: p.schema.comment.description }
-            : {}),
+          ...(description !== undefined ? { description } : {}),
           in: p.type,
           ...(hasInternalFlag ? { 'x-internal': internalValue } : {}),
           ...(p.required ? { required: true } : {}),
-- 
2.43.0


From 0a270f2fa58baeaa07bf5dfae7508e08e6f150b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:14 +0000
Subject: [PATCH 62/62] fix: resolve re-exports of a name that the file or
 another re-export uses too

---
 packages/openapi-generator/src/resolveInit.ts | 2 +-
 packages/openapi-generator/src/symbol.ts      | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index 5551f34..898f9b2 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -103,7 +103,7 @@ export function findSymbolInitializer(
     if (imp.localName === name) {
       const impSourceFile = resolveImportPath(project, sourceFile, imp.from);
       if (E.isLeft(impSourceFile)) {
-        return errorLeft(`Cannot resolve import '${imp.localName}' from '${imp.from}'`);
+        return errorLeft(`Cannot resolve import '${imp.importedName}' from '${imp.from}'`);
       }
       return findExportedDeclaration(project, impSourceFile.right, imp.importedName);
     }
diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index 676f4ed..29da80b 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -81,16 +81,21 @@ function parseExportNamedDeclaration(decl: swc.ExportNamedDeclaration): SymbolTa
   decl.specifiers.forEach((specifier) => {
     switch (specifier.type) {
       case 'ExportSpecifier':
+        // What is exported from elsewhere has no name in this file: it must not be taken
+        // for something of the file, or of yet another file, with the same name
+        const localName = decl.source
+          ? `${specifier.orig.value} from ${decl.source.value}`
+          : specifier.orig.value;
         result.exports.push({
           type: 'named',
           exportedName: specifier.exported?.value ?? specifier.orig.value,
-          localName: specifier.orig.value,
+          localName,
         });
         if (decl.source) {
           result.imports.push({
             type: 'named',
             importedName: specifier.orig.value,
-            localName: specifier.orig.value,
+            localName,
             from: decl.source.value,
           });
         }
-- 
2.43.0

