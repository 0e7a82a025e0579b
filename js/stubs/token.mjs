import { decodeAccount, fetchEncodedAccount, getAddressEncoder, getAddressDecoder, getProgramDerivedAddress, getStructDecoder, getU64Decoder, getU8Decoder } from './kit.mjs';
export const TOKEN_PROGRAM_ADDRESS = 'TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = 'ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL';
const init = program => ({ account, mint, owner }, config = {}) =>
    Object.freeze({
        accounts: [
            { address: account, role: 1 },
            { address: mint, role: 0 },
            { address: owner, role: 0 },
            { address: 'SysvarRent111111111111111111111111111111111', role: 0 },
        ],
        data: Uint8Array.from([1]),
        programAddress: config.programAddress ?? program,
    });
export const makeInit = init;
export const getInitializeAccountInstruction = init(TOKEN_PROGRAM_ADDRESS);
export async function findAssociatedTokenPda({ owner, tokenProgram, mint }, config = {}) {
    const e = getAddressEncoder();
    return await getProgramDerivedAddress({ programAddress: config.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS, seeds: [e.encode(owner), e.encode(tokenProgram), e.encode(mint)] });
}
const opt = { fixedSize: 36, read: (b, o) => [b[o] === 1 ? { __option: 'Some', value: getAddressDecoder().decode(b, o + 4) } : { __option: 'None' }, o + 36] };
const optU64 = { fixedSize: 12, read: (b, o) => [b[o] === 1 ? { __option: 'Some', value: getU64Decoder().decode(b, o + 4) } : { __option: 'None' }, o + 12] };
export const getTokenDecoder = () =>
    getStructDecoder([
        ['mint', getAddressDecoder()],
        ['owner', getAddressDecoder()],
        ['amount', getU64Decoder()],
        ['delegate', opt],
        ['state', getU8Decoder()],
        ['isNative', optU64],
        ['delegatedAmount', getU64Decoder()],
        ['closeAuthority', opt],
    ]);
export const getTokenSize = () => 165;
export const getMintSize = () => 82;
export const decodeToken = a => decodeAccount(a, getTokenDecoder());
export const fetchMaybeToken = async (rpc, a, c) => decodeToken(await fetchEncodedAccount(rpc, a, c));
export const fetchToken = async (rpc, a, c) => {
    const x = await fetchMaybeToken(rpc, a, c);
    if (!x.exists) throw new Error(`Account not found at address: ${a}`);
    return x;
};
const ataIx = d => ({ payer, ata, owner, mint, systemProgram, tokenProgram }, config = {}) =>
    Object.freeze({
        accounts: [
            { address: payer.address, role: 3, signer: payer },
            { address: ata, role: 1 },
            { address: owner, role: 0 },
            { address: mint, role: 0 },
            { address: systemProgram ?? '11111111111111111111111111111111', role: 0 },
            { address: tokenProgram ?? TOKEN_PROGRAM_ADDRESS, role: 0 },
        ],
        data: Uint8Array.from([d]),
        programAddress: config.programAddress ?? ASSOCIATED_TOKEN_PROGRAM_ADDRESS,
    });
export const getCreateAssociatedTokenInstruction = ataIx(0);
export const getCreateAssociatedTokenIdempotentInstruction = ataIx(1);
export const makeAtaIx = ataIx;
