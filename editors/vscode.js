// Drives the VS Code extension: executes one command per line of standard input and answers with
// what the extension did since. The editor is a stand-in for the process that runs extensions
// ("extension host"): its documents change when told to, and requests for changes are recorded.

const fs = require("fs")
const readline = require("readline")
const vm = require("vm")

class Position {
    constructor(line, character) {
        if (!(line >= 0) || !(character >= 0)) {
            throw new Error("illegal argument: line and character must be non-negative")
        }
        this.line = line
        this.character = character
    }
    compareTo(o) {
        return this.line - o.line || this.character - o.character
    }
    isEqual(o) {
        return this.compareTo(o) === 0
    }
    isBefore(o) {
        return this.compareTo(o) < 0
    }
    isBeforeOrEqual(o) {
        return this.compareTo(o) <= 0
    }
    isAfter(o) {
        return this.compareTo(o) > 0
    }
    isAfterOrEqual(o) {
        return this.compareTo(o) >= 0
    }
    translate(lines = 0, characters = 0) {
        return new Position(this.line + lines, this.character + characters)
    }
    with(line = this.line, character = this.character) {
        return new Position(line, character)
    }
}

class Range {
    constructor(a, b, c, d) {
        const start = typeof a === "number" ? new Position(a, b) : a
        const end = typeof a === "number" ? new Position(c, d) : b
        ;[this.start, this.end] = start.isAfter(end) ? [end, start] : [start, end]
    }
    get isEmpty() {
        return this.start.isEqual(this.end)
    }
    get isSingleLine() {
        return this.start.line === this.end.line
    }
    isEqual(o) {
        return this.start.isEqual(o.start) && this.end.isEqual(o.end)
    }
    contains(o) {
        return o instanceof Range
            ? this.contains(o.start) && this.contains(o.end)
            : !o.isBefore(this.start) && !o.isAfter(this.end)
    }
}

class Selection extends Range {
    constructor(a, b, c, d) {
        super(a, b, c, d)
        this.anchor = typeof a === "number" ? new Position(a, b) : a
        this.active = typeof a === "number" ? new Position(c, d) : b
    }
    get isReversed() {
        return this.anchor === this.end
    }
}

class TextEdit {
    constructor(range, newText) {
        this.range = range
        this.newText = newText
    }
    static replace(range, newText) {
        return new TextEdit(range, newText)
    }
    static insert(position, newText) {
        return new TextEdit(new Range(position, position), newText)
    }
    static delete(range) {
        return new TextEdit(range, "")
    }
}

class WorkspaceEdit {
    constructor() {
        this.all = []
    }
    set(uri, edits) {
        this.all = this.all.filter((e) => e.uri.toString() !== uri.toString())
        for (const edit of edits) this.all.push({uri, edit})
    }
    replace(uri, range, text) {
        this.all.push({uri, edit: TextEdit.replace(range, text)})
    }
    insert(uri, position, text) {
        this.all.push({uri, edit: TextEdit.insert(position, text)})
    }
    delete(uri, range) {
        this.all.push({uri, edit: TextEdit.delete(range)})
    }
    has(uri) {
        return this.all.some((e) => e.uri.toString() === uri.toString())
    }
    get(uri) {
        return this.all.filter((e) => e.uri.toString() === uri.toString()).map((e) => e.edit)
    }
    get size() {
        return new Set(this.all.map((e) => e.uri.toString())).size
    }
    entries() {
        const uris = new Map(this.all.map((e) => [e.uri.toString(), e.uri]))
        return [...uris.values()].map((uri) => [uri, this.get(uri)])
    }
}

// Escapes like VS Code does: everything but letters, digits, and -._~/
function encode(text, minimal) {
    return [...text]
        .map((c) => {
            if (minimal) return c === "#" ? "%23" : c === "?" ? "%3F" : c
            if (/^[A-Za-z0-9\-._~/]$/.test(c)) return c
            return [...Buffer.from(c)].map((b) => "%" + b.toString(16).toUpperCase().padStart(2, "0")).join("")
        })
        .join("")
}

function decode(text) {
    try {
        return decodeURIComponent(text)
    } catch {
        return text
    }
}

class Uri {
    constructor(scheme, authority, path, query, fragment) {
        Object.assign(this, {scheme, authority, path, query, fragment})
    }
    static file(path) {
        return new Uri("file", "", path.startsWith("/") ? path : "/" + path, "", "")
    }
    static parse(value) {
        const m = /^(([^:/?#]+?):)?(\/\/([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?/.exec(value)
        return new Uri(m[2] || "file", decode(m[4] || ""), decode(m[5] || ""), decode(m[7] || ""), decode(m[9] || ""))
    }
    static joinPath(uri, ...parts) {
        return uri.with({path: require("path").posix.join(uri.path, ...parts)})
    }
    static from(c) {
        return new Uri(c.scheme, c.authority || "", c.path || "", c.query || "", c.fragment || "")
    }
    get fsPath() {
        return this.path
    }
    with(change) {
        return Uri.from({...this, ...change})
    }
    toString(skipEncoding = false) {
        let text = this.scheme + ":"
        if (this.authority || this.scheme === "file") text += "//" + encode(this.authority, skipEncoding)
        text += encode(this.path, skipEncoding)
        if (this.query) text += "?" + encode(this.query, skipEncoding)
        if (this.fragment) text += "#" + (skipEncoding ? this.fragment : encode(this.fragment, false))
        return text
    }
    toJSON() {
        return {...this}
    }
}

class TextDocument {
    constructor(uri, text) {
        this.uri = uri
        this.version = 1
        this.isDirty = false
        this.isClosed = false
        this.isUntitled = false
        this.languageId = "plaintext"
        this.eol = 1
        this.lines = text.split("\n")
    }
    get fileName() {
        return this.uri.fsPath
    }
    get lineCount() {
        return this.lines.length
    }
    getText(range) {
        if (!range) return this.lines.join("\n")
        return this.getText().slice(this.offsetAt(range.start), this.offsetAt(range.end))
    }
    lineAt(at) {
        const line = typeof at === "number" ? at : at.line
        if (line < 0 || line >= this.lines.length || Math.floor(line) !== line) {
            throw new Error("Illegal value for `line`")
        }
        const text = this.lines[line]
        const last = line === this.lines.length - 1
        return {
            lineNumber: line,
            text,
            range: new Range(line, 0, line, text.length),
            rangeIncludingLineBreak: last ? new Range(line, 0, line, text.length) : new Range(line, 0, line + 1, 0),
            firstNonWhitespaceCharacterIndex: text.length - text.trimStart().length,
            isEmptyOrWhitespace: text.trim() === "",
        }
    }
    validatePosition(p) {
        if (p.line >= this.lines.length) {
            const line = this.lines.length - 1
            return new Position(line, this.lines[line].length)
        }
        return new Position(p.line, Math.min(p.character, this.lines[p.line].length))
    }
    validateRange(r) {
        return new Range(this.validatePosition(r.start), this.validatePosition(r.end))
    }
    offsetAt(position) {
        const p = this.validatePosition(position)
        let offset = p.character
        for (let i = 0; i < p.line; i++) offset += this.lines[i].length + 1
        return offset
    }
    positionAt(offset) {
        let rest = Math.max(0, Math.min(offset, this.getText().length))
        let line = 0
        while (rest > this.lines[line].length) {
            rest -= this.lines[line].length + 1
            line++
        }
        return new Position(line, rest)
    }
    save() {
        this.isDirty = false
        if (world) world.saved.push(this.uri.path)
        return Promise.resolve(true)
    }
}

// A part of the window that shows a document.
class TextEditor {
    constructor(document) {
        this.document = document
        this.decorations = new Map()
        this.selections = [new Selection(0, 0, 0, 0)]
        this.options = {}
        this.visibleRanges = [new Range(0, 0, document.lineCount - 1, 0)]
        this.viewColumn = 1
    }
    get selection() {
        return this.selections[0]
    }
    setDecorations(type, list) {
        if (type.disposed) return
        this.decorations.set(
            type,
            list.map((d) => (d instanceof Range ? d : d.range)),
        )
    }
    // What is highlighted, however it looks.
    get highlighted() {
        return [...this.decorations.entries()].filter(([type]) => !type.disposed).flatMap(([, list]) => list)
    }
}

class Emitter {
    constructor() {
        this.listeners = []
        this.event = (listener, self) => {
            const l = self ? listener.bind(self) : listener
            this.listeners.push(l)
            return {dispose: () => (this.listeners = this.listeners.filter((x) => x !== l))}
        }
    }
    fire(e) {
        for (const l of [...this.listeners]) {
            try {
                l(e)
            } catch (error) {
                world.did.push({what: "error", message: String(error)})
            }
        }
    }
    dispose() {}
}

// Things the extension may use without consequences here.
function anything(known) {
    return new Proxy(known, {
        get: (target, name) => {
            if (name in target || typeof name === "symbol") return target[name]
            return name.startsWith("onDid") || name.startsWith("onWill") ? new Emitter().event : anything(() => anything({}))
        },
        apply: () => anything({}),
    })
}

let world

function newWorld() {
    const w = {
        did: [],
        saved: [],
        documents: [],
        changed: new Emitter(),
        opened: new Emitter(),
        closed: new Emitter(),
        selected: new Emitter(),
        // Requests to the daemon and to the editor that wait for an answer.
        waiting: new Map(),
        nextId: 1,
        fromDaemon: new Map(),
        editors: [],
        shown: new Emitter(),
        commands: new Map(),
    }
    const wait = (entry) =>
        new Promise((resolve, reject) => {
            const id = w.nextId++
            w.waiting.set(id, {resolve, reject})
            w.did.push({...entry, id})
        })
    const plainRange = (r) => [
        [r.start.line, r.start.character],
        [r.end.line, r.end.character],
    ]
    const vscode = {
        Position,
        Range,
        Selection,
        TextEdit,
        WorkspaceEdit,
        Uri,
        EventEmitter: Emitter,
        Disposable: class {
            constructor(f) {
                this.dispose = f || (() => {})
            }
            static from() {
                return new this()
            }
        },
        EndOfLine: {LF: 1, CRLF: 2},
        workspace: anything({
            get textDocuments() {
                return w.documents
            },
            applyEdit: (edit) => {
                const entries = edit.entries().map(([uri, edits]) => {
                    const document = w.documents.find((d) => d.uri.toString() === uri.toString())
                    return {
                        path: uri.path,
                        version: document ? document.version : null,
                        edits: edits.map((e) => ({range: plainRange(e.range), text: e.newText})),
                    }
                })
                return wait({what: "apply", entries})
            },
            onDidChangeTextDocument: w.changed.event,
            onDidOpenTextDocument: w.opened.event,
            onDidCloseTextDocument: w.closed.event,
            workspaceFolders: [],
        }),
        window: anything({
            onDidChangeTextEditorSelection: w.selected.event,
            onDidChangeVisibleTextEditors: w.shown.event,
            createTextEditorDecorationType: () => ({
                key: String(w.nextId++),
                disposed: false,
                dispose() {
                    this.disposed = true
                },
            }),
            get visibleTextEditors() {
                return [...w.editors]
            },
            get activeTextEditor() {
                return w.editors[0]
            },
            showInformationMessage: (message) => {
                w.did.push({what: "message", message: String(message)})
                return Promise.resolve()
            },
            showErrorMessage: (message) => {
                w.did.push({what: "error", message: String(message)})
                return Promise.resolve()
            },
        }),
        commands: anything({
            registerCommand: (name, f) => {
                w.commands.set(name, f)
                return {dispose() {}}
            },
        }),
        DecorationRangeBehavior: anything({}),
    }
    const rpc = {
        RequestType: class {
            constructor(method) {
                this.method = method
            }
        },
        NotificationType: class {
            constructor(method) {
                this.method = method
            }
        },
        StreamMessageReader: class {},
        StreamMessageWriter: class {},
        createMessageConnection: () => ({
            sendRequest: (type, params) =>
                wait({what: "request", method: type.method || type, params: JSON.parse(JSON.stringify(params))}),
            sendNotification: (type, params) => {
                w.did.push({what: "notification", method: type.method || type, params: JSON.parse(JSON.stringify(params))})
                return Promise.resolve()
            },
            onNotification: (type, handler) => w.fromDaemon.set(type.method || type, handler),
            onRequest: (type, handler) => w.fromDaemon.set(type.method || type, handler),
            onClose: () => {},
            onError: () => {},
            onDispose: () => {},
            listen: () => {},
            dispose: () => {},
            end: () => {},
        }),
    }
    const child_process = {spawn: () => anything({on: () => {}, stdin: {}, stdout: {}, stderr: {on: () => {}}})}
    w.modules = {vscode: anything(vscode), "vscode-jsonrpc/node": anything(rpc), child_process, "node:child_process": child_process}
    return w
}

const code = fs.readFileSync(process.argv[2], "utf8")
const run = vm.compileFunction(code, ["require", "module", "exports"], {filename: "extension.js"})

function find(path) {
    return world.documents.find((d) => d.uri.path === path)
}

function show(editors) {
    const same = editors.length === world.editors.length && editors.every((e, i) => e === world.editors[i])
    world.editors = editors
    if (!same) world.shown.fire([...editors])
}

const handlers = {
    // Starts the extension, with some documents open already.
    start(c) {
        world = newWorld()
        const current = world
        for (const d of c.documents || []) world.documents.push(new TextDocument(Uri.file(d.path), d.text))
        const module = {exports: {}}
        run((name) => current.modules[name] || require(name), module, module.exports)
        module.exports.activate({subscriptions: []})
    },
    open(c) {
        const document = new TextDocument(c.uri ? Uri.parse(c.uri) : Uri.file(c.path), c.text)
        world.documents.push(document)
        world.opened.fire(document)
    },
    close(c) {
        const document = find(c.path)
        world.documents = world.documents.filter((d) => d !== document)
        document.isClosed = true
        show(world.editors.filter((e) => e.document !== document))
        world.closed.fire(document)
    },
    // The extension learns about a change in a document.
    change(c) {
        const document = find(c.path)
        const before = new TextDocument(document.uri, document.getText())
        const contentChanges = c.changes.map((change) => {
            const range = new Range(...change.range[0], ...change.range[1])
            const offset = before.offsetAt(range.start)
            return {range, rangeOffset: offset, rangeLength: before.offsetAt(range.end) - offset, text: change.text}
        })
        document.lines = c.text.split("\n")
        if (c.changes.length) document.version++
        document.isDirty = c.changes.length > 0
        world.changed.fire({document, contentChanges, reason: undefined})
    },
    select(c) {
        const document = find(c.path)
        const selections = c.selections.map((s) => new Selection(new Position(...s[0]), new Position(...s[1])))
        world.selected.fire({textEditor: {document, selections, selection: selections[0]}, selections, kind: 1})
    },
    // The window shows these documents; parts that show the same as before stay.
    show(c) {
        show(
            c.paths.map((path, i) => {
                const old = world.editors[i]
                return old && old.document.uri.path === path ? old : new TextEditor(find(path))
            }),
        )
    },
    command(c) {
        world.commands.get(c.name)()
    },
    // A request is answered.
    answer(c) {
        const {resolve, reject} = world.waiting.get(c.id)
        world.waiting.delete(c.id)
        if (c.error) reject(new Error("refused"))
        else resolve(c.value)
    },
    daemon(c) {
        const handler = world.fromDaemon.get(c.method)
        if (handler) handler(c.params)
    },
}

process.on("unhandledRejection", (error) => world.did.push({what: "error", message: String(error)}))
process.on("uncaughtException", (error) => world.did.push({what: "error", message: String(error)}))

async function main() {
    const input = readline.createInterface({input: process.stdin, crlfDelay: Infinity})
    for await (const line of input) {
        const command = JSON.parse(line)
        if (world) {
            world.did = []
            world.saved = []
        }
        handlers[command.what](command)
        // Let everything settle that does not wait for an answer.
        await new Promise((resolve) => setImmediate(resolve))
        await new Promise((resolve) => setImmediate(resolve))
        const documents = Object.fromEntries(world.documents.map((d) => [d.uri.path, d.getText()]))
        const highlighted = world.editors.map((e) =>
            e.highlighted.map((r) => [
                [r.start.line, r.start.character],
                [r.end.line, r.end.character],
            ]),
        )
        process.stdout.write(JSON.stringify({did: world.did, saved: world.saved, documents, highlighted}) + "\n")
    }
}
main()
