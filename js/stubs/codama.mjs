// Node constructors of the interface-description library: plain data with defaults.
const docs = d => (d === undefined ? [] : Array.isArray(d) ? d : [d]);
const node = kind => (x = {}) => ({ kind, ...x, ...(x && 'docs' in x ? { docs: docs(x.docs) } : {}) });
export const rootNode = (program, additionalPrograms = []) => ({ kind: 'rootNode', standard: 'codama', program, additionalPrograms });
export const programNode = x => ({ accounts: [], instructions: [], definedTypes: [], pdas: [], errors: [], publicKey: '', version: '0.0.0', ...x, kind: 'programNode' });
export const accountNode = x => ({ kind: 'accountNode', ...x, docs: docs(x.docs) });
export const instructionNode = x => ({ optionalAccountStrategy: 'programId', accounts: [], arguments: [], ...x, kind: 'instructionNode', docs: docs(x.docs) });
export const instructionAccountNode = x => ({ isOptional: false, ...x, kind: 'instructionAccountNode', docs: docs(x.docs) });
export const instructionArgumentNode = x => ({ ...x, kind: 'instructionArgumentNode', docs: docs(x.docs) });
export const instructionRemainingAccountsNode = (value, x = {}) => ({ kind: 'instructionRemainingAccountsNode', ...x, docs: docs(x.docs), value });
export const argumentValueNode = name => ({ kind: 'argumentValueNode', name });
export const accountValueNode = name => ({ kind: 'accountValueNode', name });
export const booleanTypeNode = size => ({ kind: 'booleanTypeNode', size: size ?? numberTypeNode('u8') });
export const booleanValueNode = boolean => ({ kind: 'booleanValueNode', boolean });
export const constantPdaSeedNode = (type, value) => ({ kind: 'constantPdaSeedNode', type, value });
export const stringTypeNode = encoding => ({ kind: 'stringTypeNode', encoding });
export const stringValueNode = string => ({ kind: 'stringValueNode', string });
export const constantPdaSeedNodeFromString = (encoding, string) => constantPdaSeedNode(stringTypeNode(encoding), stringValueNode(string));
export const variablePdaSeedNode = (name, type, d) => ({ kind: 'variablePdaSeedNode', name, type, docs: docs(d) });
export const createFromRoot = root => ({ getRoot: () => root, getJson: () => JSON.stringify(root), accept: () => undefined, update: () => undefined });
export const errorNode = x => ({ kind: 'errorNode', ...x, docs: docs(x.docs) });
export const fieldDiscriminatorNode = (name, offset = 0) => ({ kind: 'fieldDiscriminatorNode', name, offset });
export const constantDiscriminatorNode = (constant, offset = 0) => ({ kind: 'constantDiscriminatorNode', constant, offset });
export const sizeDiscriminatorNode = size => ({ kind: 'sizeDiscriminatorNode', size });
export const identityValueNode = () => ({ kind: 'identityValueNode' });
export const payerValueNode = () => ({ kind: 'payerValueNode' });
export const numberTypeNode = (format, endian = 'le') => ({ kind: 'numberTypeNode', format, endian });
export const numberValueNode = number => ({ kind: 'numberValueNode', number });
export const pdaLinkNode = (name, program) => ({ kind: 'pdaLinkNode', name, ...(program ? { program } : {}) });
export const pdaNode = x => ({ kind: 'pdaNode', ...x, docs: docs(x.docs) });
export const pdaValueNode = (pda, seeds = []) => ({ kind: 'pdaValueNode', pda: typeof pda === 'string' ? pdaLinkNode(pda) : pda, seeds });
export const pdaSeedValueNode = (name, value) => ({ kind: 'pdaSeedValueNode', name, value });
export const publicKeyTypeNode = () => ({ kind: 'publicKeyTypeNode' });
export const publicKeyValueNode = (publicKey, identifier) => ({ kind: 'publicKeyValueNode', publicKey, ...(identifier ? { identifier } : {}) });
export const structFieldTypeNode = x => ({ kind: 'structFieldTypeNode', ...x, docs: docs(x.docs) });
export const structTypeNode = fields => ({ kind: 'structTypeNode', fields });
export const definedTypeNode = node('definedTypeNode');
export const definedTypeLinkNode = name => ({ kind: 'definedTypeLinkNode', name });
export const optionTypeNode = (item, x = {}) => ({ kind: 'optionTypeNode', item, ...x });
export const bytesTypeNode = () => ({ kind: 'bytesTypeNode' });
export const fixedSizeTypeNode = (type, size) => ({ kind: 'fixedSizeTypeNode', type, size });
export const constantNode = node('constantNode');
