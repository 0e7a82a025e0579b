import * as t from './token.mjs';
export const TOKEN_2022_PROGRAM_ADDRESS = 'TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb';
export const ASSOCIATED_TOKEN_PROGRAM_ADDRESS = t.ASSOCIATED_TOKEN_PROGRAM_ADDRESS;
export const extension = (kind, data) => Object.freeze({ __kind: kind, ...data });
const SIZES = {
    TransferFeeConfig: 108, TransferFeeAmount: 8, MintCloseAuthority: 32, ConfidentialTransferMint: 65, ConfidentialTransferAccount: 295,
    DefaultAccountState: 1, ImmutableOwner: 0, MemoTransfer: 1, NonTransferable: 0, InterestBearingConfig: 52, CpiGuard: 1,
    PermanentDelegate: 32, NonTransferableAccount: 0, TransferHook: 64, TransferHookAccount: 1, ConfidentialTransferFee: 129,
    ConfidentialTransferFeeAmount: 64, MetadataPointer: 64, GroupPointer: 64, GroupMemberPointer: 64, ScaledUiAmountConfig: 56,
    PausableConfig: 33, PausableAccount: 0, ConfidentialMintBurn: 196,
};
const ext = l => l.reduce((n, e) => {
    if (!(e.__kind in SIZES)) throw new Error(`unknown extension ${e.__kind}`);
    return n + 4 + SIZES[e.__kind];
}, 0);
export const getMintSize = extensions => (extensions == null ? 82 : 82 + 83 + 1 + ext(extensions));
export const getTokenSize = extensions => (extensions == null ? 165 : 165 + 1 + ext(extensions));
const own = f => (i, c) => f({ tokenProgram: TOKEN_2022_PROGRAM_ADDRESS, ...i }, c);
export const findAssociatedTokenPda = t.findAssociatedTokenPda;
export const getCreateAssociatedTokenInstruction = own(t.makeAtaIx(0));
export const getCreateAssociatedTokenIdempotentInstruction = own(t.makeAtaIx(1));
export const getInitializeAccountInstruction = t.makeInit(TOKEN_2022_PROGRAM_ADDRESS);
export const getTokenDecoder = t.getTokenDecoder;
export const decodeToken = t.decodeToken;
export const fetchMaybeToken = t.fetchMaybeToken;
export const fetchToken = t.fetchToken;
