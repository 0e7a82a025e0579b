// What the description generator writes is kept, not written.
export const written = [];
export function writeFileSync(path, data) {
    written.push([String(path), String(data)]);
}
export default { writeFileSync };
