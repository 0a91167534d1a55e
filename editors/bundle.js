// bundle.js SOURCE OUTPUT: translates the extension and puts it into one file. What the editor
// provides stays outside.
const modules = process.env.MC_NODE_MODULES || "/opt/veriftools/node/node_modules"
const [source, output] = process.argv.slice(2)
require(modules + "/esbuild")
    .build({
        entryPoints: [source],
        outfile: output,
        bundle: true,
        platform: "node",
        format: "cjs",
        external: ["vscode", "vscode-jsonrpc/node", "vscode-jsonrpc"],
        nodePaths: [modules],
        logLevel: "error",
    })
    .catch(() => process.exit(1))
