import { getU32Encoder, getU64Encoder, getAddressEncoder } from './kit.mjs';
export const SYSTEM_PROGRAM_ADDRESS = '11111111111111111111111111111111';
const cat = (...l) => Uint8Array.from(l.flatMap(x => [...x]));
const sig = s => ({ address: s.address, role: 3, signer: s });
export const getTransferSolInstruction = ({ source, destination, amount }) =>
    Object.freeze({ accounts: [sig(source), { address: typeof destination === 'string' ? destination : destination.address, role: 1 }], data: cat(getU32Encoder().encode(2), getU64Encoder().encode(amount)), programAddress: SYSTEM_PROGRAM_ADDRESS });
export const getCreateAccountInstruction = ({ payer, newAccount, lamports, space, programAddress }) =>
    Object.freeze({ accounts: [sig(payer), sig(newAccount)], data: cat(getU32Encoder().encode(0), getU64Encoder().encode(lamports), getU64Encoder().encode(space), getAddressEncoder().encode(programAddress)), programAddress: SYSTEM_PROGRAM_ADDRESS });
