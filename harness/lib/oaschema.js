'use strict';
// A small evaluator of OpenAPI 3.0 schema objects, written from the specification:
// decides whether a JSON value is accepted.  `nullable: true` accepts null outright
// (the reading the generator's users rely on); oneOf is read as "at least one".
// Bounds on strings of format "number" apply to the number they spell.
const NUM = /^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$/;

class Evaluator {
  constructor(doc) {
    this.doc = doc;
    this.dangling = [];
  }
  resolve(ref) {
    const m = /^#\/components\/schemas\/(.+)$/.exec(ref);
    const all = (this.doc.components && this.doc.components.schemas) || {};
    if (!m || !Object.prototype.hasOwnProperty.call(all, m[1])) {
      this.dangling.push(ref);
      throw new Error('unresolved reference ' + ref);
    }
    return all[m[1]];
  }
  accepts(schema, v, depth = 0) {
    if (depth > 200) throw new Error('schema recursion too deep');
    const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
    if (schema === undefined) throw new Error('missing schema');
    if (has(schema, '$ref')) return this.accepts(this.resolve(schema.$ref), v, depth + 1);
    if (v === null && schema.nullable === true) return true;
    if (schema.enum !== undefined && !schema.enum.some((e) => e === v)) return false;
    if (schema.allOf && !schema.allOf.every((s) => this.accepts(s, v, depth + 1))) return false;
    for (const k of ['oneOf', 'anyOf']) {
      if (schema[k] && !schema[k].some((s) => this.accepts(s, v, depth + 1))) return false;
    }
    if (schema.not && this.accepts(schema.not, v, depth + 1)) return false;
    switch (schema.type) {
      case undefined:
        break;
      case 'string':
        if (typeof v !== 'string') return false;
        break;
      case 'number':
        if (typeof v !== 'number') return false;
        break;
      case 'integer':
        if (!Number.isInteger(v)) return false;
        break;
      case 'boolean':
        if (typeof v !== 'boolean') return false;
        break;
      case 'array':
        if (!Array.isArray(v)) return false;
        break;
      case 'object':
        if (v === null || typeof v !== 'object' || Array.isArray(v)) return false;
        break;
      default:
        throw new Error('unknown type ' + schema.type);
    }
    if (typeof v === 'string') {
      if (schema.minLength !== undefined && v.length < schema.minLength) return false;
      if (schema.maxLength !== undefined && v.length > schema.maxLength) return false;
      if (schema.pattern !== undefined && !new RegExp(schema.pattern).test(v)) return false;
    }
    let n;
    if (typeof v === 'number') n = v;
    else if (typeof v === 'string' && /^(number|integer)$/.test(schema.format || '') && NUM.test(v)) n = Number(v);
    if (n !== undefined) {
      if (schema.minimum !== undefined && (schema.exclusiveMinimum ? n <= schema.minimum : n < schema.minimum)) return false;
      if (schema.maximum !== undefined && (schema.exclusiveMaximum ? n >= schema.maximum : n > schema.maximum)) return false;
      if (schema.multipleOf !== undefined && n % schema.multipleOf !== 0) return false;
    }
    if (Array.isArray(v)) {
      if (schema.minItems !== undefined && v.length < schema.minItems) return false;
      if (schema.maxItems !== undefined && v.length > schema.maxItems) return false;
      if (schema.items && !v.every((x) => this.accepts(schema.items, x, depth + 1))) return false;
    } else if (v !== null && typeof v === 'object') {
      const props = schema.properties || {};
      for (const r of schema.required || []) if (!has(v, r)) return false;
      const keys = Object.keys(v);
      if (schema.minProperties !== undefined && keys.length < schema.minProperties) return false;
      if (schema.maxProperties !== undefined && keys.length > schema.maxProperties) return false;
      for (const k of keys) {
        if (has(props, k)) {
          if (!this.accepts(props[k], v[k], depth + 1)) return false;
        } else if (schema.additionalProperties === false) return false;
        else if (schema.additionalProperties && schema.additionalProperties !== true) {
          if (!this.accepts(schema.additionalProperties, v[k], depth + 1)) return false;
        }
      }
    }
    return true;
  }
}

const SCHEMA_KEYS = new Set(
  ('title multipleOf maximum exclusiveMaximum minimum exclusiveMinimum maxLength minLength pattern maxItems minItems ' +
    'uniqueItems maxProperties minProperties required enum type allOf oneOf anyOf not items properties additionalProperties ' +
    'description format default nullable discriminator readOnly writeOnly xml externalDocs example deprecated').split(' '),
);
const METHODS = new Set(['get', 'put', 'post', 'delete', 'options', 'head', 'patch', 'trace']);

/** Structural rules of OpenAPI 3.0; returns a list of problems. */
function wellFormed(doc) {
  const bad = [];
  const say = (where, what) => bad.push(`${where}: ${what}`);
  const own = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
  const isObj = (v) => v !== null && typeof v === 'object' && !Array.isArray(v);
  const keys = (o, allowed, where) => {
    for (const k of Object.keys(o)) if (!allowed.includes(k) && !k.startsWith('x-')) say(where, `unexpected key "${k}"`);
  };
  const components = (doc.components && doc.components.schemas) || {};
  const used = new Set();
  const schema = (s, where) => {
    if (!isObj(s)) return say(where, 'not a schema');
    if (own(s, '$ref')) {
      if (Object.keys(s).length !== 1) say(where, 'a reference has siblings');
      const m = /^#\/components\/schemas\/(.+)$/.exec(s.$ref);
      if (!m || !own(components, m[1])) say(where, `unresolved reference ${s.$ref}`);
      else used.add(m[1]);
      return;
    }
    for (const k of Object.keys(s)) if (!SCHEMA_KEYS.has(k) && !k.startsWith('x-')) say(where, `unexpected key "${k}" in a schema`);
    if (own(s, 'type') && !['string', 'number', 'integer', 'boolean', 'array', 'object'].includes(s.type)) say(where, `bad type ${JSON.stringify(s.type)}`);
    if (s.type === 'array' && !own(s, 'items')) say(where, 'array without items');
    if (own(s, 'required')) {
      if (!Array.isArray(s.required) || !s.required.length) say(where, 'required is not a non-empty array');
      else if (new Set(s.required).size !== s.required.length) say(where, `required lists a property twice: ${s.required}`);
      else if (s.required.some((r) => typeof r !== 'string')) say(where, 'required lists something that is no name');
      else for (const r of s.required) if (isObj(s.properties) && !own(s.properties, r)) say(where, `required property ${r} is not declared`);
    }
    if (own(s, 'enum')) {
      if (!Array.isArray(s.enum)) say(where, 'enum is no array');
      else if (new Set(s.enum).size !== s.enum.length) say(where, 'enum lists a value twice');
      else if (!s.enum.length && s.nullable !== true) say(where, 'empty enum');
    }
    for (const k of ['allOf', 'oneOf', 'anyOf']) {
      if (!own(s, k)) continue;
      if (!Array.isArray(s[k]) || !s[k].length) say(where, `${k} is not a non-empty array`);
      else s[k].forEach((x, i) => schema(x, `${where}/${k}/${i}`));
    }
    if (own(s, 'properties')) {
      if (!isObj(s.properties)) say(where, 'properties is no object');
      else for (const k of Object.keys(s.properties)) schema(s.properties[k], `${where}/properties/${k}`);
    }
    if (own(s, 'items')) schema(s.items, `${where}/items`);
    if (own(s, 'not')) schema(s.not, `${where}/not`);
    if (own(s, 'additionalProperties') && typeof s.additionalProperties !== 'boolean') schema(s.additionalProperties, `${where}/additionalProperties`);
    for (const k of ['nullable', 'deprecated', 'readOnly', 'writeOnly', 'uniqueItems', 'exclusiveMinimum', 'exclusiveMaximum'])
      if (own(s, k) && typeof s[k] !== 'boolean') say(where, `${k} is no boolean`);
    for (const k of ['minimum', 'maximum', 'multipleOf'])
      if (own(s, k) && typeof s[k] !== 'number') say(where, `${k} is no number`);
    for (const k of ['minLength', 'maxLength', 'minItems', 'maxItems', 'minProperties', 'maxProperties'])
      if (own(s, k) && !(Number.isInteger(s[k]) && s[k] >= 0)) say(where, `${k} is no count`);
    for (const k of ['title', 'description', 'format', 'pattern']) if (own(s, k) && typeof s[k] !== 'string') say(where, `${k} is no string`);
  };
  keys(doc, ['openapi', 'info', 'servers', 'paths', 'components'], 'document');
  if (doc.openapi !== '3.0.3') say('document', 'openapi version ' + doc.openapi);
  if (!isObj(doc.info) || typeof doc.info.title !== 'string' || typeof doc.info.version !== 'string') say('info', 'title or version missing');
  if (!isObj(doc.paths)) {
    say('paths', 'missing');
    return { bad, used };
  }
  const opIds = new Map();
  for (const [path, item] of Object.entries(doc.paths)) {
    if (!path.startsWith('/')) say(path, 'path does not start with /');
    for (const [method, op] of Object.entries(item)) {
      const where = `${method} ${path}`;
      if (!METHODS.has(method)) say(where, 'no such method');
      keys(op, ['summary', 'description', 'operationId', 'tags', 'parameters', 'requestBody', 'responses', 'deprecated'], where);
      if (op.operationId !== undefined) {
        if (opIds.has(op.operationId)) say(where, `operationId ${op.operationId} is also that of ${opIds.get(op.operationId)}`);
        opIds.set(op.operationId, where);
      }
      const seen = new Set();
      if (!Array.isArray(op.parameters)) say(where, 'parameters is no array');
      for (const p of op.parameters || []) {
        const id = `${p.in}:${p.in === 'header' ? String(p.name).toLowerCase() : p.name}`;
        if (seen.has(id)) say(where, `parameter ${id} twice`);
        seen.add(id);
        keys(p, ['name', 'in', 'description', 'required', 'deprecated', 'style', 'explode', 'schema', 'example'], `${where} ${id}`);
        if (!['path', 'query', 'header'].includes(p.in)) say(where, `parameter in ${p.in}`);
        if (typeof p.name !== 'string' || !p.name) say(where, 'parameter without a name');
        if (p.in === 'path' && p.required !== true) say(where, `path parameter ${p.name} is not required`);
        schema(p.schema, `${where} ${id}`);
      }
      const inPath = (path.match(/\{([^}]+)\}/g) || []).map((x) => x.slice(1, -1)).sort();
      const declared = (op.parameters || []).filter((p) => p.in === 'path').map((p) => p.name).sort();
      if (JSON.stringify(inPath) !== JSON.stringify(declared)) say(where, `path parameters ${declared} declared, ${inPath} in the path`);
      const content = (c, w) => {
        if (!isObj(c) || !isObj(c['application/json'])) return say(w, 'no content');
        keys(c['application/json'], ['schema', 'example'], w);
        schema(c['application/json'].schema, w);
      };
      if (op.requestBody !== undefined) {
        keys(op.requestBody, ['content', 'description', 'required'], where + ' body');
        content(op.requestBody.content, where + ' body');
      }
      if (!isObj(op.responses)) say(where, 'no responses');
      for (const [code, r] of Object.entries(op.responses || {})) {
        if (!/^([1-5]\d\d|default)$/.test(code)) say(where, `response status ${code}`);
        keys(r, ['description', 'content'], `${where} ${code}`);
        if (typeof r.description !== 'string') say(`${where} ${code}`, 'response without a description');
        content(r.content, `${where} ${code}`);
      }
    }
  }
  const reach = new Set();
  const todo = [...used];
  for (const name of Object.keys(components)) {
    if (!/^[a-zA-Z0-9._-]+$/.test(name)) say('components', `component name ${name}`);
    schema(components[name], 'component ' + name);
  }
  // components only reachable through other components count as used if those are
  const refsOf = (s, out = []) => {
    if (s && typeof s === 'object') {
      if (typeof s.$ref === 'string') out.push(s.$ref.replace('#/components/schemas/', ''));
      for (const k of Object.keys(s)) refsOf(s[k], out);
    }
    return out;
  };
  refsOf(doc.paths).forEach((n) => todo.push(n));
  const roots = new Set(refsOf(doc.paths));
  const walk = [...roots];
  while (walk.length) {
    const n = walk.pop();
    if (reach.has(n)) continue;
    reach.add(n);
    if (own(components, n)) walk.push(...refsOf(components[n]));
  }
  for (const name of Object.keys(components)) if (!reach.has(name)) say('component ' + name, 'is not referred to by any operation');
  return { bad, used: reach };
}

module.exports = { Evaluator, wellFormed };
